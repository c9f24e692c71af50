#pragma once
/* LEDGER_ASSERT is a proof obligation here (the real SDK aborts the app). */
#ifdef VP_CBMC
#define LEDGER_ASSERT(_test, ...) __CPROVER_assert(_test, "LEDGER_ASSERT condition")
#else
#include <stdio.h>
#include <stdlib.h>
#define LEDGER_ASSERT(_test, ...) do { if (!(_test)) { fprintf(stderr, "REPLAY-FAIL: LEDGER_ASSERT %s:%d %s\n", __FILE__, __LINE__, #_test); exit(1);} } while (0)
#endif
