// Included last by every harness: defines main(), which runs checks().
#pragma once
#include "tsan_once.hpp"
#include "alloc.hpp"
#include "mon.hpp"
#include "ref.hpp"
static void checks();
int main(int argc, char **argv) {
	mon::parse(argc, argv);
	if (const char *e = ref::selftest()) { fprintf(stderr, "reference self-test failed: %s\n", e); return 2; }
	checks();
	return mon::finish();
}
