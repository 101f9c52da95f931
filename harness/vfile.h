/* Stand-ins of the stdio functions on a file held in memory:
 *   vp_byte(pos) gives the contents, vf_len the length. */
#include <stdio.h>

static long vf_pos, vf_len;
static int vf_eof, vf_io;
static unsigned char vf_byte(long pos);
static void vf_put(long pos, unsigned char b);
static void vf_block(void *p, size_t n);
#define VF_SMALL 24

/* no loops here: their bounds are those of the code under test */
#define VF_P8(k) VF_P((k)) VF_P((k)+1) VF_P((k)+2) VF_P((k)+3) VF_P((k)+4) VF_P((k)+5) VF_P((k)+6) VF_P((k)+7)
static void vf_get(void *p, size_t n)
{
    unsigned char *b = p;
#define VF_P(i) if (i < n) b[i] = vf_byte(vf_pos + i);
    VF_P8(0) VF_P8(8) VF_P8(16)
#undef VF_P
}

size_t vf_fread(void *p, size_t size, size_t n, FILE *fp)
{
    (void)fp;
    vf_io++;
    if (!size || !n) return 0;
    size_t all = size * n;
    if (vf_pos >= vf_len || (size_t)(vf_len - vf_pos) < all) {
        /* short item: partial contents, end of file */
        long left = vf_pos < vf_len ? vf_len - vf_pos : 0;
        vf_get(p, left < (long)all ? left : (long)all);
        vf_eof = 1;
        vf_pos += left;
        return left / size;
    }
    if (all > VF_SMALL)
        vf_block(p, all);
    else
        vf_get(p, all);
    vf_pos += all;
    return n;
}

size_t vf_fwrite(const void *p, size_t size, size_t n, FILE *fp)
{
    (void)fp;
    size_t all = size * n;
    const unsigned char *b = p;
#define VF_P(i) if (i < all) vf_put(vf_pos + i, b[i]);
    VF_P8(0) VF_P8(8) VF_P8(16) VF_P8(24) VF_P8(32) VF_P8(40)
    vf_pos += all;
    return n;
}

int vf_fseek(FILE *fp, long off, int whence)
{
    (void)fp;
    long p = whence == SEEK_SET ? off : whence == SEEK_CUR ? vf_pos + off : vf_len + off;
    if (p < 0) return -1;
    vf_pos = p;
    vf_eof = 0;
    return 0;
}

long vf_ftell(FILE *fp) { (void)fp; return vf_pos; }
int vf_feof(FILE *fp) { (void)fp; return vf_eof; }
int vf_ferror(FILE *fp) { (void)fp; return 0; }
