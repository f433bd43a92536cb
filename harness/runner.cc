// Case runner: links the interpreter's real sources and evaluates cases, each
// in a forked child, recording what was observed at the API boundary.
//
// usage: runner SPEC OUT SCRATCHDIR
// SPEC: frames  "case <id> <mode> <period> <seed> <poison> <timeout> <len>\n<bytes>\n"
//   mode: forms  payload = forms separated by \x1e; each goes through
//                pscm_parse + pscm_eval (embedding path)
//         file   payload = program text, goes through pscm_parse_file and
//                pscm_eval per form (the path of the command line tool)
//         load   payload = program text, evaluated by (primitive-load "file")
//         capi   like forms, with the procedures of api_mode.inc defined
//         parse  payload = bytes; pscm_parse only, then written back
//         noop
// OUT:  "res <id> <wstatus> <done> <outlen> <errlen> <nstats> <stats...>\n<out>\n<err>\n"
#include "pscm_api.h"
#include "throw.h"
#include "smob.h"
#include <errno.h>
#include <filesystem>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// Temporary files in memory: the interpreter makes one for each recorded source
// location, and a file system takes far longer than everything else it does.
struct MemFile {
  std::string data;
  size_t pos = 0;
};
static ssize_t mem_read(void *c, char *buf, size_t n) {
  MemFile *m = (MemFile *)c;
  if (m->pos >= m->data.size()) return 0;
  n = std::min(n, m->data.size() - m->pos);
  memcpy(buf, m->data.data() + m->pos, n);
  m->pos += n;
  return n;
}
static ssize_t mem_write(void *c, const char *buf, size_t n) {
  MemFile *m = (MemFile *)c;
  if (m->pos + n > m->data.size()) m->data.resize(m->pos + n);
  memcpy(&m->data[m->pos], buf, n);
  m->pos += n;
  return n;
}
static int mem_seek(void *c, off64_t *off, int whence) {
  MemFile *m = (MemFile *)c;
  off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)m->pos : (off64_t)m->data.size();
  if (base + *off < 0) return -1;
  m->pos = base + *off;
  *off = m->pos;
  return 0;
}
static int mem_close(void *c) {
  delete (MemFile *)c;
  return 0;
}
extern "C" FILE *tmpfile() {
  cookie_io_functions_t f = { mem_read, mem_write, mem_seek, mem_close };
  return fopencookie(new MemFile, "w+", f);
}

struct pscm_verif_gc_stats_t {
  uint64_t allocs, alloc_bytes, collections, forced, reclaimed, reused, live_bytes, heap_bytes;
};
extern pscm_verif_gc_stats_t g_verif_gc_stats;
void pscm_verif_gc_schedule(uint64_t period, uint64_t seed, bool poison);
int pscm_verif_catch_depth();
int pscm_verif_eval_stack_depth();
extern char *g_last_error_message __attribute__((weak));
extern char *g_last_error_key __attribute__((weak));

// repl.cc expects its host to provide this.
__attribute__((weak)) SCM *eval(SCM *ast) { return pscm_eval(ast); }

struct Shared {
  int done;
  int forms;
  pscm_verif_gc_stats_t gc;
};
static Shared *shared;
static std::string scratch;

static void reset_error() {
  if (!&g_last_error_message || !&g_last_error_key) return;
  delete[] g_last_error_message;
  delete[] g_last_error_key;
  g_last_error_message = nullptr;
  g_last_error_key = nullptr;
}

static void emit_error(char kind) {
  const char *k = pscm_get_last_error_key();
  const char *m = pscm_get_last_error_message();
  printf("\x02%c%s\x03%s\x04", kind, k ? k : "", m ? m : "");
}

static void emit_state() {
  int winds = 0;
  for (SCM_List *w = g_wind_chain; w && winds < 1000; w = w->next) winds++;
  printf("\x02I%d %d %d\x04", pscm_verif_catch_depth(), winds, pscm_verif_eval_stack_depth());
  fflush(stdout);
  shared->forms++;
  shared->gc = g_verif_gc_stats;
}

static void report(SCM *v) {
  if (!v && (pscm_get_last_error_key() || pscm_get_last_error_message())) {
    emit_error('X');
  } else if (is_none(v)) {
    printf("\x02N\x04");
  } else {
    printf("\x02V");
    print_ast(v, true);
    printf("\x04");
  }
  emit_state();
}

// Evaluate one parsed form the way every host does, and report the outcome.
static __attribute__((noinline)) void eval_and_report(SCM *ast) {
  reset_error();
  report(pscm_eval(ast));
}

static void run_forms(const std::string &payload) {
  size_t pos = 0;
  while (pos <= payload.size()) {
    size_t e = payload.find('\x1e', pos);
    if (e == std::string::npos) e = payload.size();
    std::string form = payload.substr(pos, e - pos);
    pos = e + 1;
    reset_error();
    SCM *ast = pscm_parse(form.c_str());
    if (!ast) {
      emit_error('P');
      emit_state();
      continue;
    }
    eval_and_report(ast);
  }
}

static std::string put_file(const std::string &payload) {
  char name[256];
  snprintf(name, sizeof name, "%s/case-%d.scm", scratch.c_str(), (int)getpid());
  FILE *f = fopen(name, "w");
  fwrite(payload.data(), 1, payload.size(), f);
  fclose(f);
  return name;
}

static void run_file(const std::string &payload, bool first_only = false) {
  std::string name = put_file(payload);
  reset_error();
  SCM_List *l = pscm_parse_file(name.c_str());
  if (!l) {
    emit_error('P');
    emit_state();
    return;
  }
  while (l) {
    eval_and_report(l->data);
    if (first_only) return;
    l = l->next;
  }
}

// Every form in a file of its own: like run_forms, but with source locations
static void run_filed(const std::string &payload) {
  size_t pos = 0;
  while (pos <= payload.size()) {
    size_t e = payload.find('\x1e', pos);
    if (e == std::string::npos) e = payload.size();
    run_file(payload.substr(pos, e - pos), true);
    pos = e + 1;
  }
}

// Units, each with the letter of the way it enters: f text, i file of one form, s pscm_eval_string, e pscm_eval_file
static void run_mix(const std::string &payload) {
  size_t pos = 0;
  while (pos < payload.size()) {
    size_t e = payload.find('\x1e', pos);
    if (e == std::string::npos) e = payload.size();
    std::string text = payload.substr(pos + 1, e - pos - 1);
    switch (payload[pos]) {
    case 'f': run_forms(text); break;
    case 'i': run_file(text, true); break;
    case 's':
      reset_error();
      report(pscm_eval_string(text.c_str()));
      break;
    case 'e': {
      std::string name = put_file(text);
      reset_error();
      report(pscm_eval_file(name.c_str()));
      break;
    }
    default: _exit(97);
    }
    pos = e + 1;
  }
}

static void run_load(const std::string &payload) {
  std::string name = put_file(payload);
  std::string form = "(primitive-load \"" + name + "\")";
  reset_error();
  SCM *ast = pscm_parse(form.c_str());
  eval_and_report(ast);
}

static void run_parse(const std::string &payload) {
  reset_error();
  SCM *ast = pscm_parse(payload.c_str());
  if (!ast) {
    emit_error('P');
  } else {
    printf("\x02V");
    print_ast(ast, true);
    printf("\x04");
  }
  emit_state();
}

#include "api_mode.inc"

// The files a case comes with: "\x1dname\x1fcontent" repeated, then "\x1d\x1d" and the payload
static std::string unpack(const std::string &payload) {
  if (payload.empty() || payload[0] != '\x1d') return payload;
  size_t pos = 0;
  while (payload[pos] == '\x1d' && payload[pos + 1] != '\x1d') {
    size_t sep = payload.find('\x1f', pos), end = payload.find('\x1d', pos + 1);
    if (sep == std::string::npos || end == std::string::npos || sep > end) _exit(98);
    std::filesystem::path name = payload.substr(pos + 1, sep - pos - 1);
    if (name.has_parent_path()) std::filesystem::create_directories(name.parent_path());
    FILE *f = fopen(name.c_str(), "w");
    if (!f) _exit(98);
    fwrite(payload.data() + sep + 1, 1, end - sep - 1, f);
    fclose(f);
    pos = end;
  }
  return payload.substr(pos + 2);
}

static void child(const std::string &mode, const std::string &packed, uint64_t period,
                  uint64_t seed, bool poison) {
  std::string payload = unpack(packed);
  pscm_verif_gc_schedule(period, seed, poison);
  if (mode == "forms") run_forms(payload);
  else if (mode == "file") run_file(payload);
  else if (mode == "filed") run_filed(payload);
  else if (mode == "mix") run_mix(payload);
  else if (mode == "debug") {
    pscm_set_debug_enabled(true);
    run_forms(payload);
  }
  else if (mode == "load") run_load(payload);
  else if (mode == "parse") run_parse(payload);
  else if (mode == "capi") {
    define_capi();
    run_forms(payload);
  }
  fflush(stdout);
  shared->gc = g_verif_gc_stats;
  shared->done = 1;
  fflush(stderr);
  _exit(0);
}

static std::string slurp(const std::string &name, size_t limit) {
  std::string s;
  FILE *f = fopen(name.c_str(), "r");
  if (!f) return s;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0 && s.size() < limit) s.append(buf, n);
  fclose(f);
  if (s.size() > limit) s.resize(limit);
  return s;
}

int main(int argc, char **argv) {
  long stack_marker;
  gc_set_stack_top(&stack_marker);
  if (argc < 4) return 2;
  scratch = argv[3];
  FILE *spec = fopen(argv[1], "r");
  FILE *out = fopen(argv[2], "w");
  if (!spec || !out) return 2;
  shared = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pscm_init();
  std::string on = scratch + "/out", en = scratch + "/err";
  char id[64], mode[32];
  unsigned long period, seed, len;
  int poison, timeout, timeouts = 0;
  while (fscanf(spec, "case %63s %31s %lu %lu %d %d %lu", id, mode, &period, &seed, &poison, &timeout, &len) == 7) {
    if (fgetc(spec) != '\n') return 2;
    std::string payload(len, '\0');
    if (len && fread(&payload[0], 1, len, spec) != len) return 2;
    if (fgetc(spec) != '\n') return 2;
    memset(shared, 0, sizeof *shared);
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      fclose(spec);
      setpgid(0, 0);
      int fd = open(on.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      dup2(fd, 1);
      close(fd);
      fd = open(en.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
      dup2(fd, 2);
      close(fd);
      fd = open("/dev/null", O_RDONLY);
      dup2(fd, 0);
      close(fd);
      close(fileno(out));
      std::string dir = scratch + "/w";
      if (mkdir(dir.c_str(), 0700) || chdir(dir.c_str())) _exit(99);
      struct rlimit rl = { 64u << 20, 64u << 20 };
      setrlimit(RLIMIT_FSIZE, &rl);
      rl.rlim_cur = rl.rlim_max = 200;  // a descriptor that is never given back shows soon
      setrlimit(RLIMIT_NOFILE, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      alarm(timeout);
      child(mode, payload, period, seed, poison);
    }
    int st = 0;
    struct rusage ru = {};
    while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {
    }
    kill(-pid, SIGKILL);
    std::filesystem::remove_all(scratch + "/w");
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) timeouts++;
    std::string o = slurp(on, 4u << 20), e = slurp(en, 1u << 20);
    auto &g = shared->gc;
    fprintf(out, "res %s %d %d %zu %zu 10 %d %lu %lu %lu %lu %lu %lu %lu %lu %ld\n", id, st, shared->done, o.size(), e.size(),
            shared->forms, g.allocs, g.alloc_bytes, g.collections, g.forced, g.reclaimed, g.reused, g.live_bytes, g.heap_bytes, ru.ru_maxrss);
    fwrite(o.data(), 1, o.size(), out);
    fputc('\n', out);
    fwrite(e.data(), 1, e.size(), out);
    fputc('\n', out);
    fflush(out);
    if (timeouts >= 2) break;   // the rest of this shard is reported as not run
  }
  fclose(out);
  return 0;
}
