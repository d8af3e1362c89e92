/* Shared between the preloaded library, the stand-in for curl and simctl. */
#include <stdint.h>
struct sim {
	int64_t now;       /* simulated time, ns since 1970 */
	int64_t ops;       /* intercepted operations so far */
	int64_t kill_at;   /* kill the script's process group at this operation (0: never) */
	int64_t torn;      /* bytes of the write in progress that still go through then */
	int64_t limit;     /* give up after this many operations */
	int64_t exec_ns;   /* simulated cost of starting a process */
	int64_t late_ns;   /* how much a sleep oversleeps */
	int64_t pgid;
	int64_t killed, stuck, escaped, sleeps, execs, reads;
	int64_t nfaults;
	struct { int64_t op, nth, err, bytes, fired; } fault[8];
	int64_t count[8];
};
enum { OP_OPEN = 1, OP_WRITE, OP_CLOSE, OP_RENAME, OP_UNLINK };
