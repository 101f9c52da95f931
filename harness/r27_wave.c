/* Replay of C27:  r FILE  reads a header;  w FILE bits size rate channels frames  writes one, then reads it. */
#include <stdlib.h>
#include <string.h>
#include "wave.h"
int main(int argc, char **argv) {
    char mode[8], name[1024]; long v[5];
    if (scanf("%7s %1023s %ld %ld %ld %ld %ld", mode, name, v, v + 1, v + 2, v + 3, v + 4) < 2) return 2;
    FILE *fp = fopen(name, mode[0] == 'w' ? "w+b" : "rb");
    if (!fp) return 2;
    if (mode[0] == 'w') {
        wave_write_header(fp, v[0], v[1], v[2], v[3], v[4]);
        fflush(fp);
        fseek(fp, 0, SEEK_SET);
        unsigned char b[256]; size_t n = fread(b, 1, 256, fp);
        printf("%zu\n", n);
        for (size_t i = 0; i < n; i++) printf("%d ", b[i]);
        fseek(fp, 0, SEEK_SET);
    }
    int a[5] = { -1, -1, -1, -1, -1 };
    int r = wave_read_header(fp, a, a + 1, a + 2, a + 3, a + 4);
    printf("\nR %d %d %d %d %d %d %ld\n", r, a[0], a[1], a[2], a[3], a[4], ftell(fp));
    return 0;
}
