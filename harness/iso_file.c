/*
 * File readers and writers as one of the tasks of iso_main.c. A line of input:
 *   ID w|r CT PATH OPS   (ops: o, wLEN+LEN.., r, c, d separated by ,)
 */
#include <stdint.h>
#include "fstrm.h"

static void fill(uint8_t *b, int id, size_t n)
{
	for (size_t j = 0; j < n; j++)
		b[j] = j == 0 ? id : j == 1 ? id >> 8 : (id * 31 + j * 7 + (j >> 8)) & 255;
}
static const char *rs(fstrm_res r) { return r == fstrm_res_success ? "ok" : r == fstrm_res_stop ? "stop" : r == fstrm_res_failure ? "fail" : "odd"; }
static uint32_t crc32(const uint8_t *p, size_t n)
{
	uint32_t c = ~0u;
	while (n--) {
		c ^= *p++;
		for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ c >> 1 : c >> 1;
	}
	return ~c;
}
static void snap(const char *path)
{
	FILE *f = fopen(path, "r");
	static uint8_t b[65536];
	size_t n;
	printf("file ");
	if (!f) printf("none");
	else {
		while ((n = fread(b, 1, sizeof b, f)) > 0)
			for (size_t i = 0; i < n; i++) printf("%02x", b[i]);
		fclose(f);
	}
	printf("\n");
}

int main(void)
{
	static char line[65536];
	char id[32], kind, path[4096], ops[32768];
	int ct;
	while (fgets(line, sizeof line, stdin)) {
		if (sscanf(line, "%31s %c %d %4095s %32767s", id, &kind, &ct, path, ops) != 5) continue;
		printf("case %s\n", id);
		int nid = 0;
		struct fstrm_file_options *fo = fstrm_file_options_init();
		struct fstrm_writer_options *wo = fstrm_writer_options_init();
		struct fstrm_reader_options *ro = fstrm_reader_options_init();
		fstrm_file_options_set_file_path(fo, path);
		fflush(stdout);
		if (ct) fstrm_writer_options_add_content_type(wo, "ct", 2);
		if (ct) fstrm_reader_options_add_content_type(ro, "ct", 2);
		fflush(stdout);
		struct fstrm_writer *w = kind == 'w' ? fstrm_file_writer_init(fo, wo) : NULL;
		struct fstrm_reader *r = kind == 'r' ? fstrm_file_reader_init(fo, ro) : NULL;
		fflush(stdout);
		fstrm_file_options_destroy(&fo);
		fstrm_writer_options_destroy(&wo);
		fstrm_reader_options_destroy(&ro);
		if (!w && !r) printf("X creation refused\n");
		if (kind == 'w') snap(path);
		fflush(stdout);
		char *s2 = NULL;
		for (char *op = strtok_r(ops, ",", &s2); op && (w || r); op = strtok_r(NULL, ",", &s2)) {
			fstrm_res x;
			const uint8_t *data = NULL;
			size_t len = 0;
			if (*op == 'w') {
				struct iovec iov[64];
				int n = 0;
				printf("call w");
				for (char *q = op + 1; *q && n < 64; ) {
					size_t l = strtoul(q, &q, 10);
					if (*q == '+') q++;
					if (l == 1 && nid >= 255) l = 2;
					iov[n].iov_base = malloc(l);
					iov[n].iov_len = l;
					fill(iov[n++].iov_base, ++nid, l);
					printf(" %d:%zu", nid, l);
				}
				printf("\n");
				x = n == 1 ? fstrm_writer_write(w, iov[0].iov_base, iov[0].iov_len) : fstrm_writer_writev(w, iov, n);
				for (int i = 0; i < n; i++) free(iov[i].iov_base);
			} else {
				printf("call %c\n", *op);
				switch (*op) {
				case 'o': x = w ? fstrm_writer_open(w) : fstrm_reader_open(r); break;
				case 'c': x = w ? fstrm_writer_close(w) : fstrm_reader_close(r); break;
				case 'd': x = w ? fstrm_writer_destroy(&w) : fstrm_reader_destroy(&r); break;
				default: x = fstrm_reader_read(r, &data, &len);
				}
			}
			if (*op != 'd' && *op != 'c') fflush(stdout);   /* what a read returned stays until the next call */
			if (data && x == fstrm_res_success) printf("ret ok %zu %08x\n", len, crc32(data, len));
			else printf("ret %s\n", rs(x));
			if (kind == 'w') snap(path);
			fflush(stdout);
		}
		if (w) fstrm_writer_destroy(&w);
		if (r) fstrm_reader_destroy(&r);
		printf("end\n");
		fflush(stdout);
	}
	return 0;
}
