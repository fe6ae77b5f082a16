/* Native runtime for harnesses: replays recorded inputs or draws random ones.
 *
 * usage: prog replay FILE      values (hex, one per line)
 *        prog random SEED SECS
 * exit:  0 held; 1 obligation failed; 3 an assumption did not hold (replay)
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

extern void VF_HARNESS(void);

static uint64_t *vals; static size_t nvals, pos;
static int random_mode;
static uint64_t st;
static jmp_buf jb;
static uint64_t logv[65536]; static size_t nlog;
static unsigned long reached, tried;
static int flavour;

static uint64_t rnd(void)
{
	uint64_t z = (st += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

uint64_t vf_u64(void)
{
	uint64_t v;

	if (random_mode) {
		uint64_t r = rnd();
		switch (r & 15) {
		case 0: case 1: v = 0; break;
		case 2: v = 1; break;
		case 3: case 4: case 5: v = rnd() & 7; break;
		case 6: v = ~0ull; break;
		case 7: case 8: v = rnd() & 0xff; break;
		case 9: v = 1ull << (rnd() & 63); break;
		case 10: v = (1ull << (rnd() & 63)) - 1; break;
		case 11: v = rnd() & 0xffff; break;
		case 12: v = ~(rnd() & 0xffff); break;
		default: v = rnd(); break;
		}
	} else
		v = pos < nvals ? vals[pos] : 0;
	pos++;
	if (nlog < 65536)
		logv[nlog++] = v;
	return v;
}

void vf_assume_failed(const char *expr)
{
	if (random_mode)
		longjmp(jb, 1);
	printf("ASSUME-FAILED %s\n", expr);
	fflush(stdout);
	_exit(3);
}

static void dump(void)
{
	size_t i;
	printf("INPUTS");
	for (i = 0; i < nlog; i++)
		printf(" %llx", (unsigned long long) logv[i]);
	printf("\n");
	fflush(stdout);
}

void vf_assert_failed(const char *name, const char *file, int line)
{
	printf("OBLIGATION-FAILED %s (%s:%d)\n", name, file, line);
	dump();
	_exit(1);
}

static void hang(int sig)
{
	(void) sig;
	printf("OBLIGATION-FAILED terminates (no result within 20 s)\n");
	dump();
	_exit(1);
}

void vf_reached(const char *name)
{
	(void) name;
	reached++;
}

/* a sanitizer report ends the process: print the inputs first */
void __asan_on_error(void) { printf("SANITIZER\n"); dump(); }
void __ubsan_on_report(void) { printf("UBSAN\n"); dump(); }

int main(int argc, char **argv)
{
	if (argc < 3)
		return 2;
	signal(SIGALRM, hang);
	if (!strcmp(argv[1], "replay")) {
		FILE *f = fopen(argv[2], "r");
		unsigned long long v;
		if (!f)
			return 2;
		vals = malloc(sizeof(*vals) * 65536);
		while (nvals < 65536 && fscanf(f, "%llx", &v) == 1)
			vals[nvals++] = v;
		fclose(f);
		alarm(20);
		VF_HARNESS();
		printf("HELD (reached end: %lu)\n", reached);
		return 0;
	}
	random_mode = 1;
	st = strtoull(argv[2], NULL, 0) * 0x2545f4914f6cdd1dull + 1;
	{
		double secs = argc > 3 ? atof(argv[3]) : 5;
		struct timespec a, b;
		clock_gettime(CLOCK_MONOTONIC, &a);
		for (;;) {
			tried++;
			nlog = pos = 0;
			alarm(20);
			if (!setjmp(jb))
				VF_HARNESS();
			if (!(tried & 63)) {
				clock_gettime(CLOCK_MONOTONIC, &b);
				if ((double) (b.tv_sec - a.tv_sec) + (double) (b.tv_nsec - a.tv_nsec) * 1e-9 > secs)
					break;
			}
		}
	}
	(void) flavour;
	printf("HELD random: tried %lu reached %lu\n", tried, reached);
	return 0;
}
