/* Two histories at the same time, each in a thread of its own. The driver and the harness are linked
 * twice (their symbols renamed A_..., B_...), the code under test once: what the threads share is the
 * library. A line is "history|history"; the events of the second are written with the prefix "@1 ". Every line runs
 * in a process of its own, where nothing of the library has been called before. */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define BOTH(ret, name, par) ret A_##name par; ret B_##name par;
BOTH(char*, hx_run, (char*))
BOTH(void*, __wrap_malloc, (size_t)) BOTH(void*, __wrap_calloc, (size_t, size_t)) BOTH(void*, __wrap_realloc, (void*, size_t))
BOTH(void, __wrap_free, (void*)) BOTH(char*, __wrap_strdup, (const char*))
static __thread int me;
void* __wrap_malloc(size_t n) { return me ? B___wrap_malloc(n) : A___wrap_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return me ? B___wrap_calloc(a, b) : A___wrap_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return me ? B___wrap_realloc(p, n) : A___wrap_realloc(p, n); }
void __wrap_free(void* p) { if(me) B___wrap_free(p); else A___wrap_free(p); }
char* __wrap_strdup(const char* s) { return me ? B___wrap_strdup(s) : A___wrap_strdup(s); }
static char* hist[2]; static char* got[2]; static int arrived;
static void* run(void* a) {
    me = a != NULL;
    __atomic_fetch_add(&arrived, 1, __ATOMIC_RELAXED); while(__atomic_load_n(&arrived, __ATOMIC_RELAXED) < 2) { }
    got[me] = me ? B_hx_run(hist[1]) : A_hx_run(hist[0]);
    return NULL;
}
int main(void) {
    char* line = NULL; size_t cap = 0; ssize_t len; FILE* out = fdopen(dup(1), "w");
    if(out == NULL) return 3;
    dup2(2, 1);
    while((len = getline(&line, &cap, stdin)) > 0) {
        pthread_t t[2]; int i; char* e; char* s; pid_t p = fork();
        if(p < 0) return 6;
        if(p > 0) {
            int st; if(waitpid(p, &st, 0) != p) return 7;
            if(WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); return 8; }
            if(WEXITSTATUS(st) != 0) return WEXITSTATUS(st);
            continue;
        }
        if(line[len - 1] == '\n') line[len - 1] = 0;
        hist[0] = line; hist[1] = strchr(line, '|'); if(hist[1] == NULL) return 4;
        *hist[1]++ = 0; arrived = 0;
        for(i = 0; i < 2; i++) if(pthread_create(&t[i], NULL, run, i ? &t : NULL) != 0) return 5;
        for(i = 0; i < 2; i++) pthread_join(t[i], NULL);
        for(i = 0; i < 2; i++) { s = got[i]; while((e = strsep(&s, "\n")) != NULL) if(*e) fprintf(out, "%s%s\n", i ? "@1 " : "", e); free(got[i]); }
        fputs("E\n", out); fflush(out); _exit(0);
    }
    return 0;
}
