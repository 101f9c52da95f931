/* Stand-in of src/bits.h for the IR executor (pre-included, with its include
 * guard): the transport functions are external, and the executor records. */
#ifndef __LC3_BITS_H
#define __LC3_BITS_H
#include "common.h"
enum lc3_bits_mode { LC3_BITS_MODE_READ, LC3_BITS_MODE_WRITE };
struct lc3_ac_symbol { uint16_t low : 16, range : 16; };
struct lc3_ac_model { struct lc3_ac_symbol s[17]; };
#define LC3_ACCU_BITS 32
#define LC3_AC_BITS 24
typedef struct lc3_bits lc3_bits_t;
struct lc3_bits { int x; };
void lc3_put_bits(lc3_bits_t *b, unsigned v, int n);
void lc3_put_bit(lc3_bits_t *b, int v);
void lc3_put_symbol(lc3_bits_t *b, const struct lc3_ac_model *m, unsigned s);
unsigned lc3_get_bits(lc3_bits_t *b, int n);
int lc3_get_bit(lc3_bits_t *b);
unsigned lc3_get_symbol(lc3_bits_t *b, const struct lc3_ac_model *m);
int lc3_get_bits_left(const lc3_bits_t *b);
int lc3_check_bits(const lc3_bits_t *b);
void lc3_setup_bits(lc3_bits_t *b, enum lc3_bits_mode mode, void *buffer, int len);
void lc3_flush_bits(lc3_bits_t *b);
#endif
