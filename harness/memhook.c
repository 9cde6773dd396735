/* Linked into the instrumented programs for P32: heap use, as the allocator of
 * the sanitizer sees it, published in a page shared with the driver. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
struct page { char other[64]; int64_t live, peak; uint64_t calls; };
static struct page local, *pg = &local;
static void on_malloc(const volatile void *p, size_t n)
{
	(void)p;
	int64_t v = __atomic_add_fetch(&pg->live, (int64_t)n, __ATOMIC_RELAXED);
	if (v > pg->peak) pg->peak = v;
	pg->calls++;
}
static void on_free(const volatile void *p)
{
	if (p) __atomic_sub_fetch(&pg->live, (int64_t)__sanitizer_get_allocated_size(p), __ATOMIC_RELAXED);
}
__attribute__((constructor)) static void init(void)
{
	const char *c = getenv("SHIM_PAGE");
	if (c != NULL) {
		int fd = open(c, O_RDWR | O_CLOEXEC);
		void *m = fd < 0 ? MAP_FAILED : mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (m == MAP_FAILED) _exit(98);
		close(fd);
		pg = m;
	}
	__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}
