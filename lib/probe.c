// Records how it was invoked: argv, cwd, environment and descriptors, as one
// appended record in the file "log" next to the executable (a hard link per case).
#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char **environ;
static char *b; static size_t n, c;
static void put(const char *p, size_t l) {
    if (n + l + 1 > c) { c = 2 * (n + l) + 4096; b = realloc(b, c); }
    memcpy(b + n, p, l); n += l;
}
static void s(const char *p) { put(p, strlen(p)); }
static void hex(const char *p) {
    char t[3]; s(" =");
    for (; *p; p++) { snprintf(t, 3, "%02x", (unsigned char)*p); put(t, 2); }
}
int main(int argc, char **argv) {
    char exe[4096], buf[8192];
    ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 8);
    exe[l] = 0;
    s("argv");
    for (int i = 0; i < argc; i++) hex(argv[i]);
    s(";cwd");
    if (getcwd(buf, sizeof buf)) hex(buf);
    s(";env");
    for (char **e = environ; *e; e++) hex(*e);
    s(";fds");
    DIR *d = opendir("/proc/self/fd");
    struct dirent *e;
    while (d && (e = readdir(d))) {
        if (e->d_name[0] == '.' || atoi(e->d_name) == dirfd(d)) continue;
        char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%s", e->d_name);
        l = readlink(p, buf, sizeof buf - 1); buf[l < 0 ? 0 : l] = 0;
        char q[8300]; snprintf(q, sizeof q, "%s:%s", e->d_name, buf); hex(q);
    }
    s("\n");
    strcpy(strrchr(exe, '/') + 1, "log");
    int fd = open(exe, O_WRONLY | O_APPEND | O_CREAT, 0666);
    size_t o = 0;
    while (o < n) { l = write(fd, b + o, n - o); if (l <= 0) return 99; o += l; }
    return 0;
}
