// std::call_once under ThreadSanitizer: gcc's interceptor of pthread_once does not survive an exception
// (the next caller waits for ever), which the real one does. This one does, and is seen by the sanitizer.
#pragma once
#if defined(__SANITIZE_THREAD__)
#include <pthread.h>
#include <sched.h>
extern "C" int pthread_once(pthread_once_t *control, void (*routine)()) {
	int *const c = reinterpret_cast<int *>(control);
	while (true) {
		int was = __atomic_load_n(c, __ATOMIC_ACQUIRE);
		if (was == 2) return 0;
		if (was == 0 && __atomic_compare_exchange_n(c, &was, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
			struct Undo { int *c; bool done = false; ~Undo() { __atomic_store_n(c, done ? 2 : 0, __ATOMIC_RELEASE); } } undo{c};
			routine();
			undo.done = true;
			return 0;
		}
		sched_yield();
	}
}
#endif
