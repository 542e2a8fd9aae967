/* reads documents (u32 length, bytes) from standard input and writes what tap_parse() makes of each (5 u32) */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "formats/tap.h"

int
main(void)
{
	uint32_t n;
	while (fread(&n, 4, 1, stdin) == 1) {
		/* as run_cmd() leaves it: NUL after the end */
		char *b = malloc(n + 1);
		if (n && fread(b, n, 1, stdin) != 1) {
			return 1;
		}
		b[n] = 0;
		struct tap_parse_result r = { 0 };
		tap_parse(b, n, &r);
		uint32_t o[5] = { r.total, r.pass, r.fail, r.skip, r.all_ok };
		fwrite(o, sizeof(o), 1, stdout);
		free(b);
	}
	return 0;
}
