//! Bit-level vocabulary: every lemma here is proved by the solver's bit-vector theory.
use vstd::prelude::*;

verus! {

/// bit `j` of a category set
pub open spec fn bit(b: u32, j: u32) -> bool { (b >> j) & 1 == 1 }

/// number of set bits among the lowest `n`
pub open spec fn card(b: u32, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { card(b, n - 1) + (if bit(b, (n - 1) as u32) { 1int } else { 0int }) }
}

/// bit `j` of a mask word
pub open spec fn bit64(b: u64, j: u32) -> bool { (b >> j) & 1 == 1 }

pub broadcast proof fn lemma_or(a: u32, c: u32, j: u32)
    requires j < 32,
    ensures #[trigger] bit(a | c, j) == (bit(a, j) || bit(c, j)),
{
    assert(j < 32 ==> (((a | c) >> j) & 1 == 1) == (((a >> j) & 1 == 1) || ((c >> j) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn lemma_and(a: u32, c: u32, j: u32)
    requires j < 32,
    ensures #[trigger] bit(a & c, j) == (bit(a, j) && bit(c, j)),
{
    assert(j < 32 ==> (((a & c) >> j) & 1 == 1) == (((a >> j) & 1 == 1) && ((c >> j) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn lemma_xor(a: u32, c: u32, j: u32)
    requires j < 32,
    ensures #[trigger] bit(a ^ c, j) == (bit(a, j) != bit(c, j)),
{
    assert(j < 32 ==> (((a ^ c) >> j) & 1 == 1) == (((a >> j) & 1 == 1) != ((c >> j) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn lemma_not(a: u32, j: u32)
    requires j < 32,
    ensures #[trigger] bit(!a, j) == !bit(a, j),
{
    assert(j < 32 ==> (((!a) >> j) & 1 == 1) == !((a >> j) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma_one(i: u32, j: u32)
    requires i < 32, j < 32,
    ensures #[trigger] bit(1u32 << i, j) == (i as u32 == j),
{
    assert(i < 32 && j < 32 ==> (((1u32 << i) >> j) & 1 == 1) == (i as u32 == j)) by (bit_vector);
}

pub broadcast proof fn lemma_one_u8(i: u8, j: u32)
    requires i < 32, j < 32,
    ensures #[trigger] bit(1u32 << i, j) == (i as u32 == j),
{
    assert(i < 32 && j < 32 ==> (((1u32 << i) >> j) & 1 == 1) == (i as u32 == j)) by (bit_vector);
}

pub broadcast proof fn lemma_zero(j: u32)
    requires j < 32,
    ensures !#[trigger] bit(0u32, j),
{
    assert(j < 32 ==> !((0u32 >> j) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma_ones(j: u32)
    requires j < 32,
    ensures #[trigger] bit(u32::MAX, j),
{
    assert(j < 32 ==> ((0xffffffffu32 >> j) & 1 == 1)) by (bit_vector);
}

pub proof fn lemma_ext(a: u32, c: u32)
    requires forall|j: u32| j < 32 ==> bit(a, j) == bit(c, j),
    ensures a == c,
{
    assert(bit(a, 0) == bit(c, 0));
    assert(bit(a, 1) == bit(c, 1));
    assert(bit(a, 2) == bit(c, 2));
    assert(bit(a, 3) == bit(c, 3));
    assert(bit(a, 4) == bit(c, 4));
    assert(bit(a, 5) == bit(c, 5));
    assert(bit(a, 6) == bit(c, 6));
    assert(bit(a, 7) == bit(c, 7));
    assert(bit(a, 8) == bit(c, 8));
    assert(bit(a, 9) == bit(c, 9));
    assert(bit(a, 10) == bit(c, 10));
    assert(bit(a, 11) == bit(c, 11));
    assert(bit(a, 12) == bit(c, 12));
    assert(bit(a, 13) == bit(c, 13));
    assert(bit(a, 14) == bit(c, 14));
    assert(bit(a, 15) == bit(c, 15));
    assert(bit(a, 16) == bit(c, 16));
    assert(bit(a, 17) == bit(c, 17));
    assert(bit(a, 18) == bit(c, 18));
    assert(bit(a, 19) == bit(c, 19));
    assert(bit(a, 20) == bit(c, 20));
    assert(bit(a, 21) == bit(c, 21));
    assert(bit(a, 22) == bit(c, 22));
    assert(bit(a, 23) == bit(c, 23));
    assert(bit(a, 24) == bit(c, 24));
    assert(bit(a, 25) == bit(c, 25));
    assert(bit(a, 26) == bit(c, 26));
    assert(bit(a, 27) == bit(c, 27));
    assert(bit(a, 28) == bit(c, 28));
    assert(bit(a, 29) == bit(c, 29));
    assert(bit(a, 30) == bit(c, 30));
    assert(bit(a, 31) == bit(c, 31));
    assert(((a >> 0u32) & 1 == 1) == ((c >> 0u32) & 1 == 1) && ((a >> 1u32) & 1 == 1) == ((c >> 1u32) & 1 == 1) && ((a >> 2u32) & 1 == 1) == ((c >> 2u32) & 1 == 1) && ((a >> 3u32) & 1 == 1) == ((c >> 3u32) & 1 == 1) && ((a >> 4u32) & 1 == 1) == ((c >> 4u32) & 1 == 1) && ((a >> 5u32) & 1 == 1) == ((c >> 5u32) & 1 == 1) && ((a >> 6u32) & 1 == 1) == ((c >> 6u32) & 1 == 1) && ((a >> 7u32) & 1 == 1) == ((c >> 7u32) & 1 == 1) && ((a >> 8u32) & 1 == 1) == ((c >> 8u32) & 1 == 1) && ((a >> 9u32) & 1 == 1) == ((c >> 9u32) & 1 == 1) && ((a >> 10u32) & 1 == 1) == ((c >> 10u32) & 1 == 1) && ((a >> 11u32) & 1 == 1) == ((c >> 11u32) & 1 == 1) && ((a >> 12u32) & 1 == 1) == ((c >> 12u32) & 1 == 1) && ((a >> 13u32) & 1 == 1) == ((c >> 13u32) & 1 == 1) && ((a >> 14u32) & 1 == 1) == ((c >> 14u32) & 1 == 1) && ((a >> 15u32) & 1 == 1) == ((c >> 15u32) & 1 == 1) && ((a >> 16u32) & 1 == 1) == ((c >> 16u32) & 1 == 1) && ((a >> 17u32) & 1 == 1) == ((c >> 17u32) & 1 == 1) && ((a >> 18u32) & 1 == 1) == ((c >> 18u32) & 1 == 1) && ((a >> 19u32) & 1 == 1) == ((c >> 19u32) & 1 == 1) && ((a >> 20u32) & 1 == 1) == ((c >> 20u32) & 1 == 1) && ((a >> 21u32) & 1 == 1) == ((c >> 21u32) & 1 == 1) && ((a >> 22u32) & 1 == 1) == ((c >> 22u32) & 1 == 1) && ((a >> 23u32) & 1 == 1) == ((c >> 23u32) & 1 == 1) && ((a >> 24u32) & 1 == 1) == ((c >> 24u32) & 1 == 1) && ((a >> 25u32) & 1 == 1) == ((c >> 25u32) & 1 == 1) && ((a >> 26u32) & 1 == 1) == ((c >> 26u32) & 1 == 1) && ((a >> 27u32) & 1 == 1) == ((c >> 27u32) & 1 == 1) && ((a >> 28u32) & 1 == 1) == ((c >> 28u32) & 1 == 1) && ((a >> 29u32) & 1 == 1) == ((c >> 29u32) & 1 == 1) && ((a >> 30u32) & 1 == 1) == ((c >> 30u32) & 1 == 1) && ((a >> 31u32) & 1 == 1) == ((c >> 31u32) & 1 == 1) ==> a == c) by (bit_vector);
}

pub broadcast proof fn lemma64_or(a: u64, c: u64, j: u32)
    requires j < 64,
    ensures #[trigger] bit64(a | c, j) == (bit64(a, j) || bit64(c, j)),
{
    assert(j < 64 ==> (((a | c) >> j) & 1 == 1) == (((a >> j) & 1 == 1) || ((c >> j) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn lemma64_and(a: u64, c: u64, j: u32)
    requires j < 64,
    ensures #[trigger] bit64(a & c, j) == (bit64(a, j) && bit64(c, j)),
{
    assert(j < 64 ==> (((a & c) >> j) & 1 == 1) == (((a >> j) & 1 == 1) && ((c >> j) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn lemma64_xor(a: u64, c: u64, j: u32)
    requires j < 64,
    ensures #[trigger] bit64(a ^ c, j) == (bit64(a, j) != bit64(c, j)),
{
    assert(j < 64 ==> (((a ^ c) >> j) & 1 == 1) == (((a >> j) & 1 == 1) != ((c >> j) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn lemma64_not(a: u64, j: u32)
    requires j < 64,
    ensures #[trigger] bit64(!a, j) == !bit64(a, j),
{
    assert(j < 64 ==> (((!a) >> j) & 1 == 1) == !((a >> j) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma64_one(i: u32, j: u32)
    requires i < 64, j < 64,
    ensures #[trigger] bit64(1u64 << i, j) == (i as u32 == j),
{
    assert(i < 64 && j < 64 ==> (((1u64 << i) >> j) & 1 == 1) == (i as u32 == j)) by (bit_vector);
}

pub broadcast proof fn lemma64_zero(j: u32)
    requires j < 64,
    ensures !#[trigger] bit64(0u64, j),
{
    assert(j < 64 ==> !((0u64 >> j) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma64_ones(j: u32)
    requires j < 64,
    ensures #[trigger] bit64(u64::MAX, j),
{
    assert(j < 64 ==> ((0xffffffffffffffffu64 >> j) & 1 == 1)) by (bit_vector);
}

pub proof fn lemma64_ext(a: u64, c: u64)
    requires forall|j: u32| j < 64 ==> bit64(a, j) == bit64(c, j),
    ensures a == c,
{
    assert(bit64(a, 0) == bit64(c, 0));
    assert(bit64(a, 1) == bit64(c, 1));
    assert(bit64(a, 2) == bit64(c, 2));
    assert(bit64(a, 3) == bit64(c, 3));
    assert(bit64(a, 4) == bit64(c, 4));
    assert(bit64(a, 5) == bit64(c, 5));
    assert(bit64(a, 6) == bit64(c, 6));
    assert(bit64(a, 7) == bit64(c, 7));
    assert(bit64(a, 8) == bit64(c, 8));
    assert(bit64(a, 9) == bit64(c, 9));
    assert(bit64(a, 10) == bit64(c, 10));
    assert(bit64(a, 11) == bit64(c, 11));
    assert(bit64(a, 12) == bit64(c, 12));
    assert(bit64(a, 13) == bit64(c, 13));
    assert(bit64(a, 14) == bit64(c, 14));
    assert(bit64(a, 15) == bit64(c, 15));
    assert(bit64(a, 16) == bit64(c, 16));
    assert(bit64(a, 17) == bit64(c, 17));
    assert(bit64(a, 18) == bit64(c, 18));
    assert(bit64(a, 19) == bit64(c, 19));
    assert(bit64(a, 20) == bit64(c, 20));
    assert(bit64(a, 21) == bit64(c, 21));
    assert(bit64(a, 22) == bit64(c, 22));
    assert(bit64(a, 23) == bit64(c, 23));
    assert(bit64(a, 24) == bit64(c, 24));
    assert(bit64(a, 25) == bit64(c, 25));
    assert(bit64(a, 26) == bit64(c, 26));
    assert(bit64(a, 27) == bit64(c, 27));
    assert(bit64(a, 28) == bit64(c, 28));
    assert(bit64(a, 29) == bit64(c, 29));
    assert(bit64(a, 30) == bit64(c, 30));
    assert(bit64(a, 31) == bit64(c, 31));
    assert(bit64(a, 32) == bit64(c, 32));
    assert(bit64(a, 33) == bit64(c, 33));
    assert(bit64(a, 34) == bit64(c, 34));
    assert(bit64(a, 35) == bit64(c, 35));
    assert(bit64(a, 36) == bit64(c, 36));
    assert(bit64(a, 37) == bit64(c, 37));
    assert(bit64(a, 38) == bit64(c, 38));
    assert(bit64(a, 39) == bit64(c, 39));
    assert(bit64(a, 40) == bit64(c, 40));
    assert(bit64(a, 41) == bit64(c, 41));
    assert(bit64(a, 42) == bit64(c, 42));
    assert(bit64(a, 43) == bit64(c, 43));
    assert(bit64(a, 44) == bit64(c, 44));
    assert(bit64(a, 45) == bit64(c, 45));
    assert(bit64(a, 46) == bit64(c, 46));
    assert(bit64(a, 47) == bit64(c, 47));
    assert(bit64(a, 48) == bit64(c, 48));
    assert(bit64(a, 49) == bit64(c, 49));
    assert(bit64(a, 50) == bit64(c, 50));
    assert(bit64(a, 51) == bit64(c, 51));
    assert(bit64(a, 52) == bit64(c, 52));
    assert(bit64(a, 53) == bit64(c, 53));
    assert(bit64(a, 54) == bit64(c, 54));
    assert(bit64(a, 55) == bit64(c, 55));
    assert(bit64(a, 56) == bit64(c, 56));
    assert(bit64(a, 57) == bit64(c, 57));
    assert(bit64(a, 58) == bit64(c, 58));
    assert(bit64(a, 59) == bit64(c, 59));
    assert(bit64(a, 60) == bit64(c, 60));
    assert(bit64(a, 61) == bit64(c, 61));
    assert(bit64(a, 62) == bit64(c, 62));
    assert(bit64(a, 63) == bit64(c, 63));
    assert(((a >> 0u32) & 1 == 1) == ((c >> 0u32) & 1 == 1) && ((a >> 1u32) & 1 == 1) == ((c >> 1u32) & 1 == 1) && ((a >> 2u32) & 1 == 1) == ((c >> 2u32) & 1 == 1) && ((a >> 3u32) & 1 == 1) == ((c >> 3u32) & 1 == 1) && ((a >> 4u32) & 1 == 1) == ((c >> 4u32) & 1 == 1) && ((a >> 5u32) & 1 == 1) == ((c >> 5u32) & 1 == 1) && ((a >> 6u32) & 1 == 1) == ((c >> 6u32) & 1 == 1) && ((a >> 7u32) & 1 == 1) == ((c >> 7u32) & 1 == 1) && ((a >> 8u32) & 1 == 1) == ((c >> 8u32) & 1 == 1) && ((a >> 9u32) & 1 == 1) == ((c >> 9u32) & 1 == 1) && ((a >> 10u32) & 1 == 1) == ((c >> 10u32) & 1 == 1) && ((a >> 11u32) & 1 == 1) == ((c >> 11u32) & 1 == 1) && ((a >> 12u32) & 1 == 1) == ((c >> 12u32) & 1 == 1) && ((a >> 13u32) & 1 == 1) == ((c >> 13u32) & 1 == 1) && ((a >> 14u32) & 1 == 1) == ((c >> 14u32) & 1 == 1) && ((a >> 15u32) & 1 == 1) == ((c >> 15u32) & 1 == 1) && ((a >> 16u32) & 1 == 1) == ((c >> 16u32) & 1 == 1) && ((a >> 17u32) & 1 == 1) == ((c >> 17u32) & 1 == 1) && ((a >> 18u32) & 1 == 1) == ((c >> 18u32) & 1 == 1) && ((a >> 19u32) & 1 == 1) == ((c >> 19u32) & 1 == 1) && ((a >> 20u32) & 1 == 1) == ((c >> 20u32) & 1 == 1) && ((a >> 21u32) & 1 == 1) == ((c >> 21u32) & 1 == 1) && ((a >> 22u32) & 1 == 1) == ((c >> 22u32) & 1 == 1) && ((a >> 23u32) & 1 == 1) == ((c >> 23u32) & 1 == 1) && ((a >> 24u32) & 1 == 1) == ((c >> 24u32) & 1 == 1) && ((a >> 25u32) & 1 == 1) == ((c >> 25u32) & 1 == 1) && ((a >> 26u32) & 1 == 1) == ((c >> 26u32) & 1 == 1) && ((a >> 27u32) & 1 == 1) == ((c >> 27u32) & 1 == 1) && ((a >> 28u32) & 1 == 1) == ((c >> 28u32) & 1 == 1) && ((a >> 29u32) & 1 == 1) == ((c >> 29u32) & 1 == 1) && ((a >> 30u32) & 1 == 1) == ((c >> 30u32) & 1 == 1) && ((a >> 31u32) & 1 == 1) == ((c >> 31u32) & 1 == 1) && ((a >> 32u32) & 1 == 1) == ((c >> 32u32) & 1 == 1) && ((a >> 33u32) & 1 == 1) == ((c >> 33u32) & 1 == 1) && ((a >> 34u32) & 1 == 1) == ((c >> 34u32) & 1 == 1) && ((a >> 35u32) & 1 == 1) == ((c >> 35u32) & 1 == 1) && ((a >> 36u32) & 1 == 1) == ((c >> 36u32) & 1 == 1) && ((a >> 37u32) & 1 == 1) == ((c >> 37u32) & 1 == 1) && ((a >> 38u32) & 1 == 1) == ((c >> 38u32) & 1 == 1) && ((a >> 39u32) & 1 == 1) == ((c >> 39u32) & 1 == 1) && ((a >> 40u32) & 1 == 1) == ((c >> 40u32) & 1 == 1) && ((a >> 41u32) & 1 == 1) == ((c >> 41u32) & 1 == 1) && ((a >> 42u32) & 1 == 1) == ((c >> 42u32) & 1 == 1) && ((a >> 43u32) & 1 == 1) == ((c >> 43u32) & 1 == 1) && ((a >> 44u32) & 1 == 1) == ((c >> 44u32) & 1 == 1) && ((a >> 45u32) & 1 == 1) == ((c >> 45u32) & 1 == 1) && ((a >> 46u32) & 1 == 1) == ((c >> 46u32) & 1 == 1) && ((a >> 47u32) & 1 == 1) == ((c >> 47u32) & 1 == 1) && ((a >> 48u32) & 1 == 1) == ((c >> 48u32) & 1 == 1) && ((a >> 49u32) & 1 == 1) == ((c >> 49u32) & 1 == 1) && ((a >> 50u32) & 1 == 1) == ((c >> 50u32) & 1 == 1) && ((a >> 51u32) & 1 == 1) == ((c >> 51u32) & 1 == 1) && ((a >> 52u32) & 1 == 1) == ((c >> 52u32) & 1 == 1) && ((a >> 53u32) & 1 == 1) == ((c >> 53u32) & 1 == 1) && ((a >> 54u32) & 1 == 1) == ((c >> 54u32) & 1 == 1) && ((a >> 55u32) & 1 == 1) == ((c >> 55u32) & 1 == 1) && ((a >> 56u32) & 1 == 1) == ((c >> 56u32) & 1 == 1) && ((a >> 57u32) & 1 == 1) == ((c >> 57u32) & 1 == 1) && ((a >> 58u32) & 1 == 1) == ((c >> 58u32) & 1 == 1) && ((a >> 59u32) & 1 == 1) == ((c >> 59u32) & 1 == 1) && ((a >> 60u32) & 1 == 1) == ((c >> 60u32) & 1 == 1) && ((a >> 61u32) & 1 == 1) == ((c >> 61u32) & 1 == 1) && ((a >> 62u32) & 1 == 1) == ((c >> 62u32) & 1 == 1) && ((a >> 63u32) & 1 == 1) == ((c >> 63u32) & 1 == 1) ==> a == c) by (bit_vector);
}

pub broadcast proof fn lemma_or_small(a: u32, c: u32)
    requires a < 0x4000_0000, c < 0x4000_0000,
    ensures #[trigger] (a | c) < 0x4000_0000,
{
    assert(a < 0x4000_0000 && c < 0x4000_0000 ==> (a | c) < 0x4000_0000) by (bit_vector);
}

pub broadcast proof fn lemma_and_small(a: u32, c: u32)
    requires a < 0x4000_0000 || c < 0x4000_0000,
    ensures #[trigger] (a & c) < 0x4000_0000,
{
    assert(a < 0x4000_0000 || c < 0x4000_0000 ==> (a & c) < 0x4000_0000) by (bit_vector);
}

pub broadcast proof fn lemma_xor_small(a: u32, c: u32)
    requires a < 0x4000_0000, c < 0x4000_0000,
    ensures #[trigger] (a ^ c) < 0x4000_0000,
{
    assert(a < 0x4000_0000 && c < 0x4000_0000 ==> (a ^ c) < 0x4000_0000) by (bit_vector);
}

pub broadcast proof fn lemma_one_small(i: u32)
    requires i < 30,
    ensures #[trigger] (1u32 << i) < 0x4000_0000,
{
    assert(i < 30 ==> (1u32 << i) < 0x4000_0000) by (bit_vector);
}

pub broadcast proof fn lemma_one_small_u8(i: u8)
    requires i < 30,
    ensures #[trigger] (1u32 << i) < 0x4000_0000,
{
    assert(i < 30 ==> (1u32 << i) < 0x4000_0000) by (bit_vector);
}

pub broadcast proof fn lemma_all_categories(j: u32)
    requires j < 32,
    ensures #[trigger] bit(0x3fff_ffffu32, j) == (j < 30),
{
    assert(j < 32 ==> ((0x3fff_ffffu32 >> j) & 1 == 1) == (j < 30)) by (bit_vector);
}

pub broadcast proof fn lemma_small(b: u32, j: u32)
    requires b < 0x4000_0000, 30 <= j < 32,
    ensures !#[trigger] bit(b, j),
{
    assert(b < 0x4000_0000 && 30 <= j && j < 32 ==> !((b >> j) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma64_shr(x: u64, s: u32, j: u32)
    requires s < 64, j < 64,
    ensures #[trigger] bit64(x >> s, j) == (s + j < 64 && bit64(x, (s + j) as u32)),
{
    assert(s < 64 && j < 64 ==> (((x >> s) >> j) & 1 == 1) == (s + j < 64 && ((x >> ((s + j) as u32)) & 1 == 1))) by (bit_vector);
}

pub broadcast proof fn lemma64_shl(x: u64, s: u32, j: u32)
    requires s < 64, j < 64,
    ensures #[trigger] bit64(x << s, j) == (s <= j && bit64(x, (j - s) as u32)),
{
    assert(s < 64 && j < 64 ==> ((((x << s) as u64) >> j) & 1 == 1) == (s <= j && ((x >> (sub(j, s))) & 1 == 1))) by (bit_vector);
    if s <= j { assert(sub(j, s) == (j - s) as u32); }
}

/// `(1 << w) - 1` has exactly the `w` lowest bits
pub proof fn lemma_low_bits(w: u64)
    ensures w < 64 ==> (1u64 << (w as u32)) >= 1 && forall|j: u32| j < 64 ==> (#[trigger] bit64(((1u64 << (w as u32)) - 1) as u64, j) == (j < w)),
{
    if w < 64 {
        let v = w as u32;
        assert(v < 64 ==> (1u64 << v) >= 1) by (bit_vector);
        let m = ((1u64 << v) - 1) as u64;
        assert(m == sub(1u64 << v, 1));
        assert forall|j: u32| j < 64 implies (#[trigger] bit64(m, j) == (j < w)) by {
            assert(v < 64 && j < 64 && m == sub(1u64 << v, 1) ==> ((m >> j) & 1 == 1) == (j < v)) by (bit_vector);
        }
    }
}

/// the ways of asking for one bit
pub broadcast proof fn lemma_test(b: u32, i: u32)
    requires i < 32,
    ensures ((#[trigger] (b & (1u32 << i))) != 0) == bit(b, i), ((b & (1u32 << i)) == (1u32 << i)) == bit(b, i), ((b & (1u32 << i)) == 0) == !bit(b, i),
{
    assert(i < 32 ==> (b & (1u32 << i) != 0) == ((b >> i) & 1 == 1)) by (bit_vector);
    assert(i < 32 ==> (b & (1u32 << i) == (1u32 << i)) == ((b >> i) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma_test_u8(b: u32, i: u8)
    requires i < 32,
    ensures ((#[trigger] (b & (1u32 << i))) != 0) == bit(b, i as u32), ((b & (1u32 << i)) == (1u32 << i)) == bit(b, i as u32), ((b & (1u32 << i)) == 0) == !bit(b, i as u32),
{
    assert(i < 32 ==> (b & (1u32 << i) != 0) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector);
    assert(i < 32 ==> (b & (1u32 << i) == (1u32 << i)) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma_low(b: u32, i: u32)
    requires i < 32,
    ensures ((#[trigger] (b >> i)) & 1 == 1) == bit(b, i), ((b >> i) & 1 != 0) == bit(b, i),
{
    assert(i < 32 ==> ((b >> i) & 1 != 0) == ((b >> i) & 1 == 1)) by (bit_vector);
}

pub broadcast proof fn lemma_low_u8(b: u32, i: u8)
    requires i < 32,
    ensures ((#[trigger] (b >> i)) & 1 == 1) == bit(b, i as u32), ((b >> i) & 1 != 0) == bit(b, i as u32),
{
    assert(i < 32 ==> ((b >> i) & 1 != 0) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector);
    assert(i < 32 ==> ((b >> i) & 1 == 1) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector);
}

/// shifts and masks that are a division and its remainder
pub broadcast proof fn lemma_shr6(x: u32)
    ensures #[trigger] (x >> 6) == x / 64,
{
    assert(x >> 6 == x / 64) by (bit_vector);
}
pub broadcast proof fn lemma_and63(x: u32)
    ensures #[trigger] (x & 63) == x % 64,
{
    assert(x & 63 == x % 64) by (bit_vector);
}
pub broadcast proof fn lemma_shr6_usize(x: usize)
    ensures #[trigger] (x >> 6) == x / 64,
{
    assert(x >> 6 == x / 64) by (bit_vector);
}
pub broadcast proof fn lemma_and63_usize(x: usize)
    ensures #[trigger] (x & 63) == x % 64,
{
    assert(x & 63 == x % 64) by (bit_vector);
}

pub broadcast group group_bits {
    lemma_test, lemma_test_u8, lemma_low, lemma_low_u8,
    lemma_or, lemma_and, lemma_xor, lemma_not, lemma_one, lemma_one_u8, lemma_zero, lemma_ones,
    lemma_or_small, lemma_and_small, lemma_xor_small, lemma_one_small, lemma_one_small_u8, lemma_all_categories, lemma_small,
}

pub broadcast group group_bits64 {
    lemma64_or, lemma64_and, lemma64_xor, lemma64_not, lemma64_one, lemma64_zero, lemma64_ones, lemma64_shr, lemma64_shl,
}

pub broadcast group group_div {
    lemma_shr6, lemma_and63, lemma_shr6_usize, lemma_and63_usize,
}

}
