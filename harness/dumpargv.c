/* dumpargv FILE ARG...  write the arguments, each ended by NUL, to FILE ("-": standard output)
 * dumpargv -e FILE NAME...  write NAME=value for the environment variables instead
 * with "@" as FILE: to the file named by the environment variable DUMPARGV_OUT */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int
main(int argc, char **argv)
{
	int i, env = argc > 1 && !strcmp(argv[1], "-e");
	argv += env, argc -= env;
	const char *o = argv[1];
	FILE *f = !strcmp(o, "-") ? stdout : fopen(!strcmp(o, "@") ? getenv("DUMPARGV_OUT") : o, "ab");
	if (!f) {
		return 9;
	}
	for (i = 2; i < argc; ++i) {
		if (env) {
			const char *v = getenv(argv[i]);
			fprintf(f, "%s", v ? v : "(unset)");
		} else {
			fputs(argv[i], f);
		}
		fputc(0, f);
	}
	return fclose(f) != 0;
}
