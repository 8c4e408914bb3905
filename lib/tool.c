// A scriptable process for data-flow checks: each argument is an operation,
// performed in order. Events are lines appended to the file named by $EV.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
static void ev(const char *s) {
    char b[8192];
    int n = snprintf(b, sizeof b, "%s\n", s);
    int fd = open(getenv("EV"), O_WRONLY | O_APPEND | O_CREAT, 0666);
    if (fd < 0 || write(fd, b, n) != n) exit(98);
    close(fd);
}
static void us(long n) {
    struct timespec t = { n / 1000000, n % 1000000 * 1000 };
    while (n > 0 && nanosleep(&t, &t) && errno == EINTR) ;
}
static void out(int fd, const char *p, size_t n) {
    while (n) {
        ssize_t l = write(fd, p, n);
        if (l < 0 && errno == EINTR) continue;
        if (l <= 0) exit(97);
        p += l; n -= l;
    }
}
// Copy up to max bytes (or until the end if negative).
static long long copy(int from, int to, long chunk, long delay, long long max) {
    char *b = malloc(chunk);
    long long t = 0;
    while (max < 0 || t < max) {
        size_t want = max >= 0 && max - t < chunk ? max - t : chunk;
        ssize_t l = read(from, b, want);
        if (l < 0 && errno == EINTR) continue;
        if (l < 0) exit(96);
        if (l == 0) break;
        if (to >= 0) out(to, b, l);
        t += l;
        us(delay);
    }
    free(b);
    return t;
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        char *a[8] = {0}, *op = strdup(argv[i]), *p = op;
        int n = 0;
        while (n < 7 && (a[n++] = p) && (p = strchr(p, ':'))) *p++ = 0;
        long x = a[2] ? atol(a[2]) : 0, y = a[3] ? atol(a[3]) : 0;
        if (!strcmp(op, "out") || !strcmp(op, "err")) {
            int fd = open(a[1], O_RDONLY);
            if (fd < 0) exit(95);
            copy(fd, op[0] == 'o' ? 1 : 2, x ? x : 65536, y, -1);
            close(fd);
        } else if (!strcmp(op, "both")) {
            // Lines of a file alternate between the two streams.
            FILE *f = fopen(a[1], "r");
            char *l = 0; size_t c = 0; ssize_t k; int fd = 1;
            while (f && (k = getline(&l, &c, f)) > 0) { out(fd, l, k); fd = 3 - fd; }
        } else if (!strcmp(op, "say")) { out(1, a[1], strlen(a[1])); out(1, "\n", 1);
        } else if (!strcmp(op, "saye")) { out(2, a[1], strlen(a[1])); out(2, "\n", 1);
        } else if (!strcmp(op, "copy")) { copy(0, 1, a[1] ? atol(a[1]) : 65536, x, -1);
        } else if (!strcmp(op, "take")) { copy(0, 1, 65536, 0, atoll(a[1]));
        } else if (!strcmp(op, "skip")) { copy(0, -1, 65536, 0, atoll(a[1]));
        } else if (!strcmp(op, "sink")) {
            int fd = open(a[1], O_WRONLY | O_CREAT | O_APPEND, 0666);
            copy(0, fd, x ? x : 65536, y, -1);
            close(fd);
        } else if (!strcmp(op, "read")) {
            // Read a named file to its end into another.
            int fd = open(a[1], O_RDONLY), to = open(a[2], O_WRONLY | O_CREAT | O_APPEND, 0666);
            if (fd < 0 || to < 0) exit(95);
            copy(fd, to, 4096, y, -1);
            close(fd); close(to);
        } else if (!strcmp(op, "write")) {
            // Write a file's contents to a named file.
            int fd = open(a[1], O_RDONLY), to = open(a[2], O_WRONLY);
            if (fd < 0 || to < 0) exit(95);
            copy(fd, to, 4096, y, -1);
            close(fd); close(to);
        } else if (!strcmp(op, "readn")) {
            // Read the file named by the next argument, at most y bytes.
            int fd = open(argv[++i], O_RDONLY), to = open(a[1], O_WRONLY | O_CREAT | O_APPEND, 0666);
            struct stat s;
            if (fd < 0 || to < 0) exit(95);
            if (fstat(fd, &s) || !S_ISFIFO(s.st_mode)) ev("NOTFIFO");
            copy(fd, to, x ? x : 4096, 0, a[3] ? y : -1);
            close(fd); close(to);
        } else if (!strcmp(op, "writen")) {
            // Write to the file named by the next argument.
            int fd = open(a[1], O_RDONLY), to = open(argv[++i], O_WRONLY);
            if (fd < 0 || to < 0) exit(95);
            copy(fd, to, x ? x : 4096, y, -1);
            close(fd); close(to);
        } else if (!strcmp(op, "arg")) { i++;
        } else if (!strcmp(op, "argv")) {
            int fd = open(a[1], O_WRONLY | O_CREAT | O_APPEND, 0666);
            for (int j = 0; j < argc; j++) out(fd, argv[j], strlen(argv[j]) + 1);
            close(fd);
        } else if (!strcmp(op, "settle")) {
            // The descriptors and children of the parent, once they are back
            // to what the file's first line says, or after some time.
            char base[4096] = "", cur[65536], b[4096], p[99];
            FILE *f = fopen(a[1], "r");
            int nf = 0, nc = 0, bf = 1 << 30, bc = 0;
            if (f) { if (fscanf(f, "%d %d", &bf, &bc) != 2) exit(92); fclose(f); }
            for (int k = 0; k < (a[2] ? atoi(a[2]) : 3000); k++) {
                nf = nc = 0; cur[0] = 0;
                sprintf(p, "/proc/%d/fd", getppid());
                DIR *dir = opendir(p); struct dirent *e;
                while (dir && (e = readdir(dir))) {
                    if (e->d_name[0] == '.') continue;
                    char q[400];
                    snprintf(q, sizeof q, "%s/%s", p, e->d_name);
                    ssize_t l = readlink(q, b, sizeof b - 1);
                    if (l < 0) continue;
                    b[l] = 0; nf++;
                    if (strlen(cur) + l < 60000) sprintf(cur + strlen(cur), " %s=%s", e->d_name, b);
                }
                if (dir) closedir(dir);
                dir = opendir("/proc");
                while (dir && (e = readdir(dir))) {
                    if (e->d_name[0] < '0' || e->d_name[0] > '9' || atoi(e->d_name) == getpid()) continue;
                    sprintf(p, "/proc/%s/stat", e->d_name);
                    FILE *h = fopen(p, "r");
                    if (!h) continue;
                    int l = fread(b, 1, 2000, h); b[l > 0 ? l : 0] = 0; fclose(h);
                    char *q = strrchr(b, ')'), st; int pp;
                    if (q && sscanf(q + 1, " %c %d", &st, &pp) == 2 && pp == getppid()) {
                        nc++;
                        if (strlen(cur) < 60000) sprintf(cur + strlen(cur), " child:%.99s:%c", b, st);
                    }
                }
                if (dir) closedir(dir);
                if (bf == 1 << 30 ? k >= 30 : nf <= bf && nc <= bc) break;
                us(1000);
            }
            sprintf(b, "%d %d", nf, nc);
            int fd = open(a[1], O_WRONLY | O_CREAT | O_APPEND, 0666);
            out(fd, b, strlen(b)); out(fd, cur, strlen(cur)); out(fd, "\n", 1);
            close(fd);
        } else if (!strcmp(op, "lsdir")) {
            DIR *dir = opendir(a[1]); struct dirent *e; int k = 0; char b[99];
            while (dir && (e = readdir(dir))) k += e->d_name[0] != '.';
            sprintf(b, "entries %d", dir ? k : -1);
            ev(b);
        } else if (!strcmp(op, "nap")) {
            // Stop, and be continued by another process.
            pid_t me = getpid();
            if (!fork()) {
                char f[64], b[512]; int st = 0;
                for (int k = 0; k < 20000; k++) {
                    sprintf(f, "/proc/%d/stat", (int)me);
                    FILE *h = fopen(f, "r");
                    if (!h) _exit(0);
                    int l = fread(b, 1, 511, h); b[l > 0 ? l : 0] = 0; fclose(h);
                    char *q = strrchr(b, ')');
                    if (q && q[2] == 'T') { st = 1; break; }
                    us(1000);
                }
                us(atol(a[1]) * 1000);
                kill(me, SIGCONT);
                _exit(0);
            }
            raise(SIGSTOP);
        } else if (!strcmp(op, "forever")) { for (;;) out(1, "forever\n", 8);
        } else if (!strcmp(op, "sleep")) { us(atol(a[1]) * 1000);
        } else if (!strcmp(op, "ev")) { ev(a[1]);
        } else if (!strcmp(op, "touch")) { close(open(a[1], O_WRONLY | O_CREAT, 0666));
        } else if (!strcmp(op, "waitfile")) {
            struct stat s; int k = 0;
            while (stat(a[1], &s) && k++ < 30000) us(1000);
            if (k >= 30000) { ev("TIMEOUT"); exit(94); }
        } else if (!strcmp(op, "closein")) { close(0);
        } else if (!strcmp(op, "closeout")) { close(1); close(2);
        } else if (!strcmp(op, "exit")) { exit(atoi(a[1]));
        } else if (!strcmp(op, "kill")) { kill(getpid(), atoi(a[1])); us(10000000);
        } else exit(93);
        free(op);
    }
    return 0;
}
