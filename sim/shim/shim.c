/* Preloaded into the demonstration program: answers its writes as the plan says.
 *
 * CLSIM_PLAN  comma separated, one entry per write to standard output:
 *               n         written in full
 *               s<k>      at most k bytes written
 *               i         interrupted (EINTR)
 *               z         nothing written, no error
 *               e<errno>  this write fails, the next ones are written
 *               p<errno>  this write fails and so do all later ones
 *             writes after the last entry are written in full
 * CLSIM_ERR   1: every write to standard error fails
 * CLSIM_ENV   1: every variable asked for is set
 * CLSIM_ODD   1: everything is a terminal, and the clock jumps
 * CLSIM_LOG   file to note what was asked and what was answered
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int ready, log_fd = -1, err_broken, env_full, odd;
extern char **environ;
static int dead; /* errno of a permanent failure */
static char plan_text[65536];
static char *plan;

static char *lookup(const char *name)
{
    size_t n = strlen(name);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, name, n) && (*e)[n] == '=')
            return *e + n + 1;
    return NULL;
}

static void prepare(void)
{
    if (ready)
        return;
    ready = 1;
    const char *s = lookup("CLSIM_PLAN");
    if (s) {
        strncpy(plan_text, s, sizeof plan_text - 1);
        plan = plan_text;
    }
    s = lookup("CLSIM_ERR");
    err_broken = s && *s == '1';
    s = lookup("CLSIM_ENV");
    env_full = s && *s == '1';
    s = lookup("CLSIM_ODD");
    odd = s && *s == '1';
    s = lookup("CLSIM_LOG");
    if (s)
        log_fd = (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
}

static void note(int fd, size_t asked, const char *op, long answer)
{
    char b[96];
    int n = snprintf(b, sizeof b, "%d %zu %s %ld\n", fd, asked, op, answer);
    if (log_fd >= 0)
        syscall(SYS_write, log_fd, b, (size_t)n);
}

static ssize_t fail(int fd, size_t n, const char *op, int e)
{
    note(fd, n, op, -e);
    errno = e;
    return -1;
}

static ssize_t full(int fd, const char *buf, size_t n)
{
    size_t done = 0;
    while (done < n) {
        long r = syscall(SYS_write, fd, buf + done, n - done);
        if (r < 0 && errno == EINTR)
            continue;
        if (r < 0)
            return done ? (ssize_t)done : -1;
        done += (size_t)r;
    }
    return (ssize_t)done;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    prepare();
    if (fd == 2 && err_broken) {
        errno = EIO;
        return -1;
    }
    if (fd != 1)
        return syscall(SYS_write, fd, buf, n);
    if (dead)
        return fail(fd, n, "dead", dead);
    char op[32] = "n";
    if (plan && *plan) {
        size_t k = strcspn(plan, ",");
        size_t c = k < sizeof op - 1 ? k : sizeof op - 1;
        memcpy(op, plan, c);
        op[c] = 0;
        plan += k + (plan[k] == ',');
    }
    size_t m = n;
    switch (op[0]) {
    case 'i':
        return fail(fd, n, op, EINTR);
    case 'z':
        note(fd, n, op, 0);
        return 0;
    case 'e':
        return fail(fd, n, op, atoi(op + 1));
    case 'p':
        dead = atoi(op + 1);
        return fail(fd, n, op, dead);
    case 's':
        m = (size_t)atoi(op + 1);
        if (m > n)
            m = n;
    }
    ssize_t r = full(fd, buf, m);
    note(fd, n, op, r);
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    /* one buffer at a time is within what writev may do */
    for (int i = 0; i < c; i++)
        if (v[i].iov_len)
            return write(fd, v[i].iov_base, v[i].iov_len);
    return write(fd, "", 0);
}

char *getenv(const char *name)
{
    prepare();
    char *v = lookup(name);
    /* the runtimes' own settings are left alone */
    static const char *own[] = {"RUST_", "LD_", "MALLOC_", "GLIBC_", "LC_", "LANG"};
    for (size_t i = 0; i < sizeof own / sizeof *own; i++)
        if (!strncmp(name, own[i], strlen(own[i])))
            return v;
    return v || !env_full ? v : "1";
}

int isatty(int fd)
{
    prepare();
    if (odd)
        return 1;
    errno = ENOTTY;
    return 0;
}

int clock_gettime(clockid_t c, struct timespec *t)
{
    prepare();
    int r = (int)syscall(SYS_clock_gettime, c, t);
    static long jump;
    if (odd && r == 0)
        t->tv_sec += jump += 86400;
    return r;
}
