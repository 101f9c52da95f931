/* Stand-ins of the processing stages behind src/lc3.c: a stage does nothing,
 * counts its call and has an arbitrary result.  A harness replaces the ones it
 * observes (define ON_<STAGE> to the statements of its body). */
#ifndef STAGES_H
#define STAGES_H
#include "vp.h"
#include <lc3.h>
#include <lc3_private.h>
#include "common.h"
#include "tables.h"
#include "attdet.h"
#include "bwdet.h"
#include "energy.h"
#include "ltpf.h"
#include "mdct.h"
#include "plc.h"
#include "sns.h"
#include "spec.h"
#include "tns.h"

/* PCM rate, the codec rate by default */
#ifndef PCM
#define PCM SR
#define PCMID SRID
#endif

/* memory of a codec: typed under CBMC (see core.py), the advertised type on replay */
#ifdef VP_REPLAY
#define ENC_MEM(name) static LC3_ENCODER_MEM_T(US, PCM) name
#define DEC_MEM(name) static LC3_DECODER_MEM_T(US, PCM) name
#else
#define ENC_MEM(name) static struct lc3_encoder name
#define DEC_MEM(name) static struct lc3_decoder name
#endif

static int stage_calls;
#ifndef STAGE_ERROR
#define STAGE_ERROR vp_bool()
#endif
static bool stage_error(void) { return STAGE_ERROR; }

#ifndef ON_ATTDET
#define ON_ATTDET
#endif
bool lc3_attdet_run(enum lc3_dt dt, enum lc3_srate sr, int nbytes, lc3_attdet_analysis_t *attdet, const int16_t *x)
{ bool ret = false; stage_calls++; ON_ATTDET; return ret; }

#ifndef ON_LTPF_ANALYSE
#define ON_LTPF_ANALYSE
#endif
bool lc3_ltpf_analyse(enum lc3_dt dt, enum lc3_srate sr, lc3_ltpf_analysis_t *ltpf, const int16_t *x, lc3_ltpf_data_t *data)
{ bool ret = false; stage_calls++; ON_LTPF_ANALYSE; return ret; }

#ifndef ON_LTPF_DISABLE
#define ON_LTPF_DISABLE
#endif
void lc3_ltpf_disable(lc3_ltpf_data_t *data) { data->active = false; ON_LTPF_DISABLE; }

#ifndef ON_MDCT_FORWARD
#define ON_MDCT_FORWARD
#endif
void lc3_mdct_forward(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_dst, const float *x, float *d, float *y)
{ stage_calls++; ON_MDCT_FORWARD; }

#ifndef ON_ENERGY
#define ON_ENERGY
#endif
bool lc3_energy_compute(enum lc3_dt dt, enum lc3_srate sr, const float *x, float *e)
{ bool ret = false; stage_calls++; ON_ENERGY; return ret; }

#ifndef ON_BWDET
#define ON_BWDET
#endif
enum lc3_bandwidth lc3_bwdet_run(enum lc3_dt dt, enum lc3_srate sr, const float *e)
{ enum lc3_bandwidth ret = (enum lc3_bandwidth)sr; stage_calls++; ON_BWDET; return ret; }

#ifndef ON_SNS_ANALYZE
#define ON_SNS_ANALYZE
#endif
void lc3_sns_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes, const float *eb, bool att, lc3_sns_data_t *data, const float *x, float *y)
{ stage_calls++; ON_SNS_ANALYZE; }

#ifndef ON_TNS_ANALYZE
#define ON_TNS_ANALYZE
#endif
void lc3_tns_analyze(enum lc3_dt dt, enum lc3_bandwidth bw, bool nn_flag, int nbytes, lc3_tns_data_t *data, float *x)
{ stage_calls++; ON_TNS_ANALYZE; }

#ifndef ON_SPEC_ANALYZE
#define ON_SPEC_ANALYZE
#endif
void lc3_spec_analyze(enum lc3_dt dt, enum lc3_srate sr, int nbytes, bool pitch, const lc3_tns_data_t *tns, lc3_spec_analysis_t *spec, float *x, lc3_spec_side_t *side)
{ stage_calls++; ON_SPEC_ANALYZE; }

#ifndef ON_BW_PUT
#define ON_BW_PUT
#endif
void lc3_bwdet_put_bw(lc3_bits_t *bits, enum lc3_srate sr, enum lc3_bandwidth bw) { stage_calls++; ON_BW_PUT; }
#ifndef ON_SIDE_PUT
#define ON_SIDE_PUT
#endif
void lc3_spec_put_side(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, const lc3_spec_side_t *side) { stage_calls++; ON_SIDE_PUT; }
#ifndef ON_TNS_PUT
#define ON_TNS_PUT
#endif
void lc3_tns_put_data(lc3_bits_t *bits, const lc3_tns_data_t *data) { stage_calls++; ON_TNS_PUT; }
#ifndef ON_SNS_PUT
#define ON_SNS_PUT
#endif
void lc3_sns_put_data(lc3_bits_t *bits, const lc3_sns_data_t *data) { stage_calls++; ON_SNS_PUT; }
#ifndef ON_LTPF_PUT
#define ON_LTPF_PUT
#endif
void lc3_ltpf_put_data(lc3_bits_t *bits, const lc3_ltpf_data_t *data) { stage_calls++; ON_LTPF_PUT; }
#ifndef ON_SPEC_ENCODE
#define ON_SPEC_ENCODE
#endif
void lc3_spec_encode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, enum lc3_bandwidth bw, int nbytes, const lc3_spec_side_t *side, float *x)
{ stage_calls++; ON_SPEC_ENCODE; }

/* the parser: each stage may refuse the frame */
#ifndef ON_BW_GET
#define ON_BW_GET
#endif
int lc3_bwdet_get_bw(lc3_bits_t *bits, enum lc3_srate sr, enum lc3_bandwidth *bw)
{ stage_calls++; *bw = (enum lc3_bandwidth)sr; ON_BW_GET; return stage_error() ? -1 : 0; }
#ifndef ON_SIDE_GET
#define ON_SIDE_GET
#endif
int lc3_spec_get_side(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, lc3_spec_side_t *side)
{ stage_calls++; ON_SIDE_GET; return stage_error() ? -1 : 0; }
#ifndef ON_TNS_GET
#define ON_TNS_GET
#endif
int lc3_tns_get_data(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_bandwidth bw, int nbytes, lc3_tns_data_t *data)
{ stage_calls++; ON_TNS_GET; return stage_error() ? -1 : 0; }
#ifndef ON_SNS_GET
#define ON_SNS_GET
#endif
int lc3_sns_get_data(lc3_bits_t *bits, lc3_sns_data_t *data)
{ stage_calls++; ON_SNS_GET; return stage_error() ? -1 : 0; }
#ifndef ON_LTPF_GET
#define ON_LTPF_GET
#endif
void lc3_ltpf_get_data(lc3_bits_t *bits, lc3_ltpf_data_t *data) { stage_calls++; ON_LTPF_GET; }
#ifndef ON_SPEC_DECODE
#define ON_SPEC_DECODE
#endif
int lc3_spec_decode(lc3_bits_t *bits, enum lc3_dt dt, enum lc3_srate sr, enum lc3_bandwidth bw, int nbytes, const lc3_spec_side_t *side, float *x)
{ stage_calls++; ON_SPEC_DECODE; return stage_error() ? -1 : 0; }

#ifndef ON_TNS_SYNTH
#define ON_TNS_SYNTH
#endif
void lc3_tns_synthesize(enum lc3_dt dt, enum lc3_bandwidth bw, const lc3_tns_data_t *data, float *x) { stage_calls++; ON_TNS_SYNTH; }
#ifndef ON_SNS_SYNTH
#define ON_SNS_SYNTH
#endif
void lc3_sns_synthesize(enum lc3_dt dt, enum lc3_srate sr, const lc3_sns_data_t *data, const float *x, float *y) { stage_calls++; ON_SNS_SYNTH; }
#ifndef ON_MDCT_INVERSE
#define ON_MDCT_INVERSE
#endif
void lc3_mdct_inverse(enum lc3_dt dt, enum lc3_srate sr, enum lc3_srate sr_src, const float *x, float *d, float *y) { stage_calls++; ON_MDCT_INVERSE; }
#ifndef ON_LTPF_SYNTH
#define ON_LTPF_SYNTH
#endif
void lc3_ltpf_synthesize(enum lc3_dt dt, enum lc3_srate sr, int nbytes, lc3_ltpf_synthesis_t *ltpf, const lc3_ltpf_data_t *data, const float *xr, float *x)
{ stage_calls++; ON_LTPF_SYNTH; }

#ifndef REAL_BITS
#ifndef ON_FLUSH
#define ON_FLUSH
#endif
void lc3_setup_bits(lc3_bits_t *bits, enum lc3_bits_mode mode, void *buffer, int len)
{ memset(bits, 0, sizeof *bits); bits->mode = mode; bits->buffer.start = bits->buffer.p_fw = buffer; bits->buffer.end = bits->buffer.p_bw = (uint8_t *)buffer + len; bits->ac.range = 0xffffff; }
int lc3_get_bits_left(const lc3_bits_t *bits) { return stage_error(); }
int lc3_check_bits(const lc3_bits_t *bits) { return stage_error() ? -1 : 0; }
void lc3_flush_bits(lc3_bits_t *bits) { stage_calls++; ON_FLUSH; }
void lc3_put_bits_generic(lc3_bits_t *bits, unsigned v, int n) { }
unsigned lc3_get_bits_generic(struct lc3_bits *bits, int n) { return stage_error(); }
void lc3_ac_read_renorm(lc3_bits_t *bits) { }
void lc3_ac_write_renorm(lc3_bits_t *bits) { }
#endif

#ifndef REAL_PLC
#ifndef ON_PLC_SYNTH
#define ON_PLC_SYNTH
#endif
void lc3_plc_reset(struct lc3_plc_state *plc) { plc->seed = 1; plc->count = 1; plc->alpha = 1; }
void lc3_plc_suspend(struct lc3_plc_state *plc) { stage_calls++; plc->count = 1; }
void lc3_plc_synthesize(enum lc3_dt dt, enum lc3_srate sr, struct lc3_plc_state *plc, const float *x, float *y)
{ stage_calls++; ON_PLC_SYNTH; }
#endif

#endif
