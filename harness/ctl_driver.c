/* Executes control API scripts (stdin) and prints one JSON line per case (see lib/control.py). */
#include <unistd.h>
#include <ctype.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fstrm.h>
#include "ledger.h"
#define BOOKS(...) do { if (ledger_live) { printf("%s{\"e\":", first ? "" : ","); first = 0; printf(__VA_ARGS__); printf(",\"live\":%ld}", ledger_live()); } } while (0)

static const char *resname(fstrm_res r)
{
	switch (r) {
	case fstrm_res_success: return "ok";
	case fstrm_res_failure: return "fail";
	case fstrm_res_again: return "again";
	case fstrm_res_invalid: return "invalid";
	case fstrm_res_stop: return "stop";
	}
	return "other";
}

/* A buffer of exactly the given size, so that the sanitizer sees any access outside. */
static uint8_t *unhex(const char *s, size_t *len)
{
	size_t n = *s == '-' ? 0 : strlen(s) / 2;
	uint8_t *b = malloc(n);
	for (size_t i = 0; i < n; i++) {
		unsigned v;
		sscanf(s + 2 * i, "%2x", &v);
		b[i] = v;
	}
	*len = n;
	return b;
}

static void bytes(const char *name, const uint8_t *b, size_t n)
{
	printf(",\"%s\":[", name);
	for (size_t i = 0; i < n; i++)
		printf(i ? ",%u" : "%u", b[i]);
	printf("]");
}

static void word(const char *name, uint32_t w)
{
	uint8_t b[4] = { w >> 24, w >> 16, w >> 8, w };
	bytes(name, b, 4);
}

static void dump_cts(struct fstrm_control *c)
{
	size_t n = 0;
	fstrm_control_get_num_field_content_type(c, &n);
	printf(",\"cts\":[");
	for (size_t i = 0; i < n && i < 1000; i++) {
		const uint8_t *p = NULL;
		size_t len = 0;
		fstrm_res r = fstrm_control_get_field_content_type(c, i, &p, &len);
		printf(i ? ",[" : "[");
		if (r != fstrm_res_success)
			printf("999");
		else
			for (size_t j = 0; j < len; j++)
				printf(j ? ",%u" : "%u", p[j]);
		printf("]");
	}
	printf("]");
}

int main(void)
{
	static char line[1 << 20], arg2[1 << 20];
	struct fstrm_control *c = NULL;
	int first = 1;

	while (fgets(line, sizeof line, stdin)) {
		char op[16];
		int pos = 0;
		if (sscanf(line, "%15s%n", op, &pos) != 1)
			continue;
		char *a = line + pos;
		while (*a == ' ') a++;
		a[strcspn(a, "\n")] = 0;

		if (!strcmp(op, "new")) {
			alarm(60);   /* a run that does not end is as bad as one that crashes */
			if (ledger_start) ledger_start();
			c = fstrm_control_init();
			printf("{\"id\":%s,\"ev\":[", a);
			first = 1;
			BOOKS("\"new\"");
			fflush(stdout);
			continue;
		}
		if (!strcmp(op, "end")) {
			fstrm_control_destroy(&c);
			BOOKS("\"gone\",\"null\":%s", c ? "false" : "true");
			fstrm_control_destroy(&c);
			BOOKS("\"again\"");
			BOOKS("\"end\"");
			printf("]}\n");
			fflush(stdout);
			continue;
		}
		printf("%s{\"op\":\"%s\"", first ? "" : ",", op);
		first = 0;
		fflush(stdout);

		if (!strcmp(op, "reset")) {
			fstrm_control_reset(c);
		} else if (!strcmp(op, "set_type")) {
			uint32_t w = strtoul(a, NULL, 16);
			word("w", w);
			printf(",\"res\":\"%s\"", resname(fstrm_control_set_type(c, (fstrm_control_type) w)));
		} else if (!strcmp(op, "tname") || !strcmp(op, "fname")) {
			uint32_t w = strtoul(a, NULL, 16);
			const char *s = *op == 't' ? fstrm_control_type_to_str((fstrm_control_type) w) : fstrm_control_field_type_to_str((fstrm_control_field) w);
#ifdef ISO
			fflush(stdout);
#endif
			word("w", w);
			printf(",\"name\":\"%.60s\"", s ? s : "NULL");
		} else if (!strcmp(op, "get_type")) {
			fstrm_control_type t = 0;
			fstrm_res r = fstrm_control_get_type(c, &t);
			printf(",\"res\":\"%s\"", resname(r));
			word("w", (uint32_t) t);
		} else if (!strcmp(op, "add")) {
			size_t n;
			uint8_t *b = unhex(a, &n);
			bytes("ct", b, n);
			printf(",\"res\":\"%s\"", resname(fstrm_control_add_field_content_type(c, b, n)));
			memset(b, 0xEE, n);
			free(b);
		} else if (!strcmp(op, "num")) {
			size_t n = 0;
			fstrm_res r = fstrm_control_get_num_field_content_type(c, &n);
			printf(",\"res\":\"%s\",\"n\":%u", resname(r), n > 100000 ? 100000 : (unsigned) n);
		} else if (!strcmp(op, "get")) {
			const uint8_t *p = NULL;
			size_t n = 0;
			unsigned long idx = strtoul(a, NULL, 10);
			fstrm_res r = fstrm_control_get_field_content_type(c, idx, &p, &n);
#ifdef ISO
			fflush(stdout);   /* others may move before we look at it */
#endif
			printf(",\"idx\":%lu,\"res\":\"%s\"", idx < 1000000 ? idx : 1000000, resname(r));
			bytes("ct", p, r == fstrm_res_success ? n : 0);
		} else if (!strcmp(op, "match")) {
			fstrm_res r;
			printf(",\"q\":[");
			if (!strcmp(a, "NULL")) {
				r = fstrm_control_match_field_content_type(c, NULL, 0);
			} else {
				size_t n;
				uint8_t *b = unhex(a, &n);
				printf("[");
				for (size_t i = 0; i < n; i++)
					printf(i ? ",%u" : "%u", b[i]);
				printf("]");
				r = fstrm_control_match_field_content_type(c, b, n);
				free(b);
			}
			printf("],\"res\":\"%s\"", resname(r));
		} else if (!strcmp(op, "decode")) {
			int hdr;
			size_t n;
			sscanf(a, "%d %s", &hdr, arg2);
			uint8_t *b = unhex(arg2, &n);
			fstrm_res r = fstrm_control_decode(c, b, n, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
			printf(",\"hdr\":%s,\"res\":\"%s\"", hdr ? "true" : "false", resname(r));
			bytes("bytes", b, n);
			memset(b, 0xEE, n);
			free(b);
			fstrm_control_type t = 0;
			if (r == fstrm_res_success) {
				if (fstrm_control_get_type(c, &t) != fstrm_res_success)
					t = 0;
				printf(",\"type\":%u", (unsigned) t > 1000 ? 1000 : (unsigned) t);
				dump_cts(c);
			} else
				printf(",\"type\":0,\"cts\":[]");
		} else if (!strcmp(op, "size")) {
			size_t n = 0;
			fstrm_res r = fstrm_control_encoded_size(c, &n, a[0] == '1' ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
			printf(",\"hdr\":%s,\"res\":\"%s\",\"n\":%u", a[0] == '1' ? "true" : "false", resname(r),
			       n > 100000 ? 100000 : (unsigned) n);
		} else if (!strcmp(op, "encode")) {
			int hdr;
			unsigned cap;
			sscanf(a, "%d %u", &hdr, &cap);
			uint8_t *b = malloc(cap);
			memset(b, 0xA5, cap);
			size_t n = cap;
			fstrm_res r = fstrm_control_encode(c, b, &n, hdr ? FSTRM_CONTROL_FLAG_WITH_HEADER : 0);
			bool clean = true;
			if (r == fstrm_res_success)
				for (size_t i = n; i < cap; i++)
					if (b[i] != 0xA5)
						clean = false;
			printf(",\"hdr\":%s,\"cap\":%u,\"res\":\"%s\",\"clean\":%s,\"n\":%u", hdr ? "true" : "false", cap,
			       resname(r), clean ? "true" : "false", n > 100000 ? 100000 : (unsigned) n);
			bytes("out", b, r == fstrm_res_success && n <= cap ? n : 0);
			free(b);
		}
		printf("}");
		BOOKS(!strcmp(op, "mark") ? "\"mark\"" : "\"call\"");
		fflush(stdout);
	}
	return 0;
}
