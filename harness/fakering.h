// A stand-in for liburing: requests are carried out one at a time, at moments and
// in an order that the controlled scheduler decides.
// ring_mode: 'S' no io_uring, 'R' all operations, 'C' close only, 'O' openat only
#include <liburing.h>
static char ring_mode = 'S';
static int ring_size = 4;

struct fake {
	unsigned skhead, sktail, ckhead, cktail;
	struct io_uring_sqe sqes[256];
	struct io_uring_cqe cqes[512];
	struct io_uring_sqe fly[1024];
	int nfly, errs;
};

WRAP(int, io_uring_queue_init_params, unsigned entries, struct io_uring *ring, struct io_uring_params *p) {
	if (ring_mode == 'S') return -ENOSYS;
	memset(ring, 0, sizeof(*ring));
	struct fake *f = calloc(1, sizeof(*f));
	unsigned n = (int)entries < ring_size ? entries : (unsigned)ring_size;
	ring->sq.khead = &f->skhead;
	ring->sq.ktail = &f->sktail;
	ring->sq.sqes = f->sqes;
	ring->sq.ring_entries = n;
	ring->sq.ring_mask = n - 1;
	ring->cq.khead = &f->ckhead;
	ring->cq.ktail = &f->cktail;
	ring->cq.cqes = f->cqes;
	ring->cq.ring_entries = 2 * n;
	ring->cq.ring_mask = 2 * n - 1;
	ring->sq.ring_ptr = f;
	ring->flags = p->flags;
	ring->ring_fd = 9999;
	return 0;
}
WRAP(void, io_uring_queue_exit, struct io_uring *ring) {
	struct fake *f = ring->sq.ring_ptr;
	if (f->nfly || f->skhead != ring->sq.sqe_tail) sched_event("{\"o\":\"lost\",\"k\":0,\"r\":0}");
	free(f);
}
WRAP(int, io_uring_enable_rings, struct io_uring *ring) { return 0; }
WRAP(int, io_uring_register_iowq_max_workers, struct io_uring *ring, unsigned *v) { return 0; }
WRAP(struct io_uring_probe *, io_uring_get_probe_ring, struct io_uring *ring) {
	struct io_uring_probe *p = calloc(1, sizeof(*p) + 256 * sizeof(p->ops[0]));
	p->last_op = 255;
	p->ops_len = 255;
	int ops[] = {IORING_OP_OPENAT, IORING_OP_CLOSE, IORING_OP_STATX};
	for (int i = 0; i < 3; ++i) {
		bool on = ring_mode == 'R' || (ring_mode == 'C' && i == 1) || (ring_mode == 'O' && i == 0);
		p->ops[ops[i]].op = ops[i];
		p->ops[ops[i]].flags = on ? IO_URING_OP_SUPPORTED : 0;
	}
	return p;
}
WRAP(void, io_uring_free_probe, struct io_uring_probe *p) { free(p); }
WRAP(int, bfs_statx_convert, struct bfs_stat *dest, const struct statx *src) { return 0; }

static int fake_do(const struct io_uring_sqe *s) {
	int id;
	switch (s->opcode) {
	case IORING_OP_NOP:
		return 0;
	case IORING_OP_CLOSE:
		id = s->fd % 1000;
		carried_out(id, s->fd >= 7000 ? 'd' : 'c');
		return result(id);
	case IORING_OP_OPENAT:
		id = -500 - s->fd;
		if (id < 1 || id > nreq || strcmp((const char *)(uintptr_t)s->addr, R[id].path)) id = 0;
		carried_out(id, 'o');
		return result(id) < 0 ? result(id) : 5000 + id;
	case IORING_OP_STATX:
		id = -500 - s->fd;
		if (id < 1 || id > nreq || strcmp((const char *)(uintptr_t)s->addr, R[id].path)) id = 0;
		carried_out(id, 's');
		return result(id);
	}
	carried_out(0, '?');
	return -ENOSYS;
}

static bool fake_complete(struct io_uring *ring) {
	struct fake *f = ring->sq.ring_ptr;
	if (f->nfly == 0 || f->cktail - f->ckhead >= ring->cq.ring_entries) return false;
	int i = sched_choose(f->nfly);
	struct io_uring_sqe s = f->fly[i];
	for (; i + 1 < f->nfly; ++i) f->fly[i] = f->fly[i + 1];
	--f->nfly;
	int r = fake_do(&s);
	sched_point();
	struct io_uring_cqe *c = &f->cqes[f->cktail & ring->cq.ring_mask];
	c->user_data = s.user_data;
	c->res = r;
	c->flags = 0;
	++f->cktail;
	return true;
}
static void fake_wait(struct io_uring *ring, unsigned nr) {
	struct fake *f = ring->sq.ring_ptr;
	while (f->cktail - f->ckhead < nr && fake_complete(ring));
	while (f->nfly && sched_choose(2) && fake_complete(ring));
	if (f->cktail - f->ckhead < nr) {
		// A real ring would never return
		sched_event("{\"o\":\"hang\",\"k\":0,\"r\":0}");
	}
}

WRAP(int, io_uring_submit_and_wait, struct io_uring *ring, unsigned nr) {
	struct fake *f = ring->sq.ring_ptr;
	sched_point();
	unsigned n = ring->sq.sqe_tail - f->skhead;
	if (n > 1 && f->errs < 3) {
		int c = sched_choose(3);
		if (c) ++f->errs;
		if (c == 1) n -= 1;
		if (c == 2) return -EINTR;
	}
	for (unsigned i = 0; i < n; ++i) {
		f->fly[f->nfly++] = f->sqes[f->skhead++ & ring->sq.ring_mask];
	}
	ring->sq.sqe_head = f->skhead;
	sched_point();
	if (nr > f->nfly + (f->cktail - f->ckhead)) nr = f->nfly + (f->cktail - f->ckhead); // (after a short submission)
	fake_wait(ring, nr);
	return n;
}
WRAP(int, io_uring_wait_cqes, struct io_uring *ring, struct io_uring_cqe **cqe, unsigned nr, struct __kernel_timespec *ts, sigset_t *sm) {
	struct fake *f = ring->sq.ring_ptr;
	sched_point();
	if (f->errs < 3 && sched_choose(2)) {
		++f->errs;
		return -EINTR;
	}
	fake_wait(ring, nr);
	return 0;
}
