#define _GNU_SOURCE
#include <dlfcn.h>
/* Event-recording driver: executes scripted operations against ohcount's public API and records what
 * was observed, one JSON object per operation, to the output file. Every global here is static: the
 * library under test itself exports globals called p, pe, ts, len, file, class...
 *
 * usage: driver SCRIPT OUT [SKIP]
 * Script = sequence of records "OP argc\n" followed by argc blobs "len\n<bytes>\n".
 */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

#include "sourcefile.h"
#include "detector.h"
#include "diff.h"
#include "languages.h"
#include "licenses.h"
#include "loc.h"
#include "parser.h"

#ifdef VP_LSAN
int __lsan_do_recoverable_leak_check(void);
#endif

static FILE *vp_out;
static char *vp_src;
static size_t vp_len, vp_pos;

/* the temporary files the library makes, to see whether they are there afterwards */
static char *vp_temps[256];
static int vp_ntemps;
int mkostemp(char *, int);
int mkstemp(char *path) {
  int fd = mkostemp(path, 0);
  if (fd >= 0 && vp_ntemps < 256) { free(vp_temps[vp_ntemps]); vp_temps[vp_ntemps++] = strdup(path); }
  return fd;
}

/* a file that changes, or fails, at the moment it is read */
static char *vp_at_path, *vp_at_data;
static long vp_at_len = -1, vp_at_fail = -1;
static int vp_at_hits;
static int vp_at(int fd) {
  struct stat a, b;
  if (!vp_at_path || fd < 0 || fstat(fd, &a) || stat(vp_at_path, &b) || a.st_ino != b.st_ino || a.st_dev != b.st_dev || !S_ISREG(a.st_mode)) return 0;
  if (vp_at_len >= 0) {
    int w = open(vp_at_path, O_WRONLY | O_TRUNC);
    if (w >= 0) { if (write(w, vp_at_data, vp_at_len) != vp_at_len) exit(99); close(w); }
  }
  free(vp_at_path); vp_at_path = NULL;
  vp_at_hits++;
  return 1;
}
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
size_t __interceptor_fread(void *, size_t, size_t, FILE *);
ssize_t __interceptor_read(int, void *, size_t);
#define REAL_FREAD __interceptor_fread
#define REAL_READ __interceptor_read
#else
static size_t (*vp_fread)(void *, size_t, size_t, FILE *);
static ssize_t (*vp_read)(int, void *, size_t);
#define REAL_FREAD (vp_fread ? vp_fread : (vp_fread = (size_t (*)(void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fread")))
#define REAL_READ (vp_read ? vp_read : (vp_read = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read")))
#endif
static size_t vp_do_fread(void *p, size_t size, size_t n, FILE *f) {
  if (vp_at_path && vp_at(fileno(f)) && vp_at_len < 0) {
    size_t k = vp_at_fail, all = size * n;
    if (k >= all) return REAL_FREAD(p, size, n, f);
    k = REAL_FREAD(p, 1, k, f);
    errno = EIO;
    return size ? k / size : 0;
  }
  return REAL_FREAD(p, size, n, f);
}
size_t fread(void *p, size_t size, size_t n, FILE *f) { return vp_do_fread(p, size, n, f); }
size_t __fread_chk(void *p, size_t room, size_t size, size_t n, FILE *f) {
  if (size && n > room / size) { fprintf(stderr, "DRIVER: fread of %zu * %zu bytes into %zu\n", size, n, room); abort(); }
  return vp_do_fread(p, size, n, f);
}
ssize_t __read_chk(int fd, void *p, size_t n, size_t room) {
  if (n > room) { fprintf(stderr, "DRIVER: read of %zu bytes into %zu\n", n, room); abort(); }
  return read(fd, p, n);
}
ssize_t read(int fd, void *p, size_t n) {
  if (vp_at_path && vp_at(fd) && vp_at_len < 0) { errno = EIO; return -1; }
  return REAL_READ(fd, p, n);
}

static void jstr(const char *s, size_t n) {
  size_t i;
  putc('"', vp_out);
  for (i = 0; i < n; i++) {
    unsigned char c = (unsigned char)s[i];
    if (c == '"' || c == '\\') { putc('\\', vp_out); putc(c, vp_out); }
    else if (c < 32 || c > 126) fprintf(vp_out, "\\u%04x", c);
    else putc(c, vp_out);
  }
  putc('"', vp_out);
}
static void jz(const char *s) { if (s) jstr(s, strlen(s)); else fputs("null", vp_out); }

static size_t rd_num(void) {
  size_t v = 0;
  while (vp_pos < vp_len && vp_src[vp_pos] >= '0' && vp_src[vp_pos] <= '9') v = v * 10 + (vp_src[vp_pos++] - '0');
  if (vp_pos < vp_len && vp_src[vp_pos] == '\n') vp_pos++; else { fprintf(stderr, "DRIVER: bad script at %zu\n", vp_pos); exit(99); }
  return v;
}

#define MAXARG 4096
static char *argv_[MAXARG];
static size_t argl_[MAXARG];
static size_t argc_;

static void rd_args(size_t n) {
  size_t i;
  if (n > MAXARG) { fprintf(stderr, "DRIVER: too many args\n"); exit(99); }
  for (i = 0; i < n; i++) {
    size_t l = rd_num();
    argv_[i] = malloc(l + 1);
    memcpy(argv_[i], vp_src + vp_pos, l);
    argv_[i][l] = 0;
    argl_[i] = l;
    vp_pos += l;
    if (vp_src[vp_pos] != '\n') { fprintf(stderr, "DRIVER: bad blob end\n"); exit(99); }
    vp_pos++;
  }
  argc_ = n;
}

#define NREG 4096
static SourceFile *regs[NREG];
static char **fnames[NREG];
static SourceFileList *lists[64];
static LocList *locs[256];
static LocDeltaList *deltas[256];

/* language names handed to counts and deltas have to outlive them */
static char *vp_pool[4096];
static size_t vp_npool;
static char *intern(const char *s) {
  size_t i;
  for (i = 0; i < vp_npool; i++) if (strcmp(vp_pool[i], s) == 0) return vp_pool[i];
  if (vp_npool == 4096) { fprintf(stderr, "DRIVER: too many names\n"); exit(99); }
  return vp_pool[vp_npool++] = strdup(s);
}

static int ai(size_t i) { return i < argc_ ? atoi(argv_[i]) : 0; }

struct evctx { int first; long n; long max; };
static void ev_cb(const char *lang, const char *entity, int s, int e, void *ud) {
  struct evctx *c = ud;
  c->n++;
  if (c->max && c->n > c->max) return;
  if (!c->first) putc(',', vp_out);
  c->first = 0;
  putc('[', vp_out); jz(lang); putc(',', vp_out); jz(entity);
  fprintf(vp_out, ",%d,%d]", s, e);
}

static void dump_loc(Loc *l) {
  putc('[', vp_out); jz(l->language);
  fprintf(vp_out, ",%d,%d,%d,%d]", l->code, l->comments, l->blanks, l->filecount);
}
static void dump_loclist(LocList *list) {
  LocList *it; int first = 1;
  putc('[', vp_out);
  for (it = list->head; it; it = it->next) {
    if (!first) putc(',', vp_out);
    first = 0; dump_loc(it->loc);
  }
  putc(']', vp_out);
}
static void dump_totals(LocList *l) {
  fprintf(vp_out, ",\"totals\":[%d,%d,%d,%d,%d]", ohcount_loc_list_code(l), ohcount_loc_list_comments(l),
          ohcount_loc_list_blanks(l), ohcount_loc_list_total(l), ohcount_loc_list_filecount(l));
}
static void dump_delta(LocDelta *d) {
  putc('[', vp_out); jz(d->language);
  fprintf(vp_out, ",%d,%d,%d,%d,%d,%d]", d->code_added, d->code_removed, d->comments_added, d->comments_removed,
          d->blanks_added, d->blanks_removed);
}
static void dump_deltalist(LocDeltaList *list) {
  LocDeltaList *it; int first = 1;
  putc('[', vp_out);
  for (it = list->head; it; it = it->next) {
    if (!first) putc(',', vp_out);
    first = 0; dump_delta(it->delta);
  }
  putc(']', vp_out);
}
static void dump_dtotals(LocDeltaList *l) {
  fprintf(vp_out, ",\"totals\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", ohcount_loc_delta_list_code_added(l),
          ohcount_loc_delta_list_code_removed(l), ohcount_loc_delta_list_comments_added(l),
          ohcount_loc_delta_list_comments_removed(l), ohcount_loc_delta_list_blanks_added(l),
          ohcount_loc_delta_list_blanks_removed(l), ohcount_loc_delta_list_net_code(l),
          ohcount_loc_delta_list_net_comments(l), ohcount_loc_delta_list_net_blanks(l),
          ohcount_loc_delta_list_net_total(l));
}
static void free_fn(int r) {
  if (fnames[r]) { char **f; for (f = fnames[r]; *f; f++) free(*f); free(fnames[r]); fnames[r] = NULL; }
}
static SourceFile *R(size_t i) {
  int r = ai(i);
  if (r < 0 || r >= NREG || !regs[r]) { fprintf(stderr, "DRIVER: empty register %d\n", r); exit(99); }
  return regs[r];
}


#define IS(x) (strcmp(op, x) == 0)

static void run_op(const char *op) {
  fputs("{\"op\":", vp_out); jz(op);
  if (IS("NEW")) {
    int r = ai(0);
    SourceFile *sf = ohcount_sourcefile_new(argv_[1]);
    regs[r] = sf;
    fputs(",\"filename\":", vp_out); jz(sf->filename);
    fputs(",\"ext\":", vp_out); jz(sf->ext);
    fputs(",\"filepath\":", vp_out); jz(sf->filepath);
    fprintf(vp_out, ",\"dirpath\":%d", sf->dirpath);
  } else if (IS("CONT")) {
    ohcount_sourcefile_set_contents(R(0), argv_[1]);
  } else if (IS("DISK")) {
    ohcount_sourcefile_set_diskpath(R(0), argv_[1]);
  } else if (IS("FNAMES")) {
    int r = ai(0); size_t i;
    free_fn(r);
    fnames[r] = calloc(argc_, sizeof(char *));
    for (i = 1; i < argc_; i++) fnames[r][i - 1] = strdup(argv_[i]);
    R(0)->filenames = fnames[r];
  } else if (IS("LANG")) {
    ohcount_sourcefile_set_language(R(0), argv_[1]);
    fputs(",\"lang\":", vp_out); jz(R(0)->language);
  } else if (IS("GETLANG")) {
    const char *l = ohcount_sourcefile_get_language(R(0));
    fputs(",\"lang\":", vp_out); jz(l);
  } else if (IS("DETECT")) {
    const char *l = ohcount_detect_language(R(0));
    fputs(",\"lang\":", vp_out); jz(l);
  } else if (IS("GETCONT")) {
    char *c = ohcount_sourcefile_get_contents(R(0));
    int n = ohcount_sourcefile_get_contents_size(R(0));
    fprintf(vp_out, ",\"size\":%d,\"contents\":", n);
    if (c) jstr(c, n < 0 ? 0 : n); else fputs("null", vp_out);
    if (c && n >= 0) fprintf(vp_out, ",\"nul\":%d", c[n] == 0);
  } else if (IS("LINES") || IS("ENTS")) {
    struct evctx c = {1, 0, argc_ > 1 ? ai(1) : 0};
    fputs(",\"ev\":[", vp_out);
    if (IS("LINES")) ohcount_sourcefile_parse_with_callback(R(0), ev_cb, &c);
    else ohcount_sourcefile_parse_entities_with_callback(R(0), ev_cb, &c);
    fprintf(vp_out, "],\"n\":%ld", c.n);
  } else if (IS("NOCB")) { /* parse without a callback must be a no-op */
    int v = ohcount_parse(R(0), ai(1), NULL, NULL);
    fprintf(vp_out, ",\"ret\":%d", v);
  } else if (IS("PARSE")) {
    ParsedLanguageList *it = ohcount_sourcefile_get_parsed_language_list(R(0))->head;
    int first = 1;
    fputs(",\"pl\":[", vp_out);
    for (; it; it = it->next) {
      if (!first) putc(',', vp_out);
      first = 0;
      putc('[', vp_out); jz(it->pl->name);
      fprintf(vp_out, ",%d,%d,%d,", it->pl->code_count, it->pl->comments_count, it->pl->blanks_count);
      jz(it->pl->code); putc(',', vp_out); jz(it->pl->comments); putc(']', vp_out);
    }
    putc(']', vp_out);
  } else if (IS("LOC")) {
    fputs(",\"loc\":", vp_out);
    dump_loclist(ohcount_sourcefile_get_loc_list(R(0)));
    dump_totals(ohcount_sourcefile_get_loc_list(R(0)));
  } else if (IS("LIC")) {
    LicenseList *it = ohcount_sourcefile_get_license_list(R(0))->head;
    int first = 1;
    fputs(",\"lic\":[", vp_out);
    for (; it; it = it->next) { if (!first) putc(',', vp_out); first = 0; jz(it->lic->name); }
    putc(']', vp_out);
  } else if (IS("DIFF")) {
    LocDeltaList *d = ohcount_sourcefile_diff(R(0), R(1));
    fputs(",\"delta\":", vp_out);
    dump_deltalist(d); dump_dtotals(d);
    ohcount_loc_delta_list_free(d);
  } else if (IS("CDELTA")) {
    LocDelta *d = ohcount_sourcefile_calc_loc_delta(R(0), argv_[2], R(1));
    fputs(",\"delta\":", vp_out);
    dump_delta(d);
    ohcount_loc_delta_free(d);
  } else if (IS("CDIFF")) {
    int a = -7, r = -7;
    ohcount_calc_diff(argv_[0], argv_[1], &a, &r);
    fprintf(vp_out, ",\"added\":%d,\"removed\":%d", a, r);
  } else if (IS("FREE")) {
    int r = ai(0);
    ohcount_sourcefile_free(R(0)); regs[r] = NULL; free_fn(r);
  } else if (IS("ISBIN")) {
    fprintf(vp_out, ",\"ret\":%d", ohcount_is_binary_filename(argv_[0]) != 0);
  } else if (IS("NAME")) {
    struct LanguageMap *m = ohcount_hash_language_from_name(argv_[0], argl_[0]);
    fputs(",\"name\":", vp_out); jz(m ? m->name : NULL);
    fputs(",\"nice\":", vp_out); jz(m ? m->nice_name : NULL);
    fprintf(vp_out, ",\"cat\":%d", m ? m->category : -1);
  } else if (IS("LNEW")) { lists[ai(0)] = ohcount_sourcefile_list_new();
  } else if (IS("LFILE")) { ohcount_sourcefile_list_add_file(lists[ai(0)], argv_[1]);
  } else if (IS("LDIR")) { ohcount_sourcefile_list_add_directory(lists[ai(0)], argv_[1]);
  } else if (IS("LDUMP")) {
    SourceFileList *it = lists[ai(0)]->head; int first = 1;
    fputs(",\"files\":[", vp_out);
    for (; it; it = it->next) { if (!first) putc(',', vp_out); first = 0; jz(it->sf->filepath); }
    putc(']', vp_out);
  } else if (IS("LLOC")) {
    SourceFileList *it = lists[ai(0)]->head; int first = 1;
    fputs(",\"files\":[", vp_out);
    for (; it; it = it->next) {
      if (!first) putc(',', vp_out);
      first = 0; putc('[', vp_out); jz(it->sf->filepath); putc(',', vp_out);
      dump_loclist(ohcount_sourcefile_get_loc_list(it->sf)); putc(']', vp_out);
    }
    putc(']', vp_out);
  } else if (IS("LANA")) {
    LocList *l = ohcount_sourcefile_list_analyze_languages(lists[ai(0)]);
    fputs(",\"loc\":", vp_out);
    dump_loclist(l); dump_totals(l);
    ohcount_loc_list_free(l);
  } else if (IS("LFREE")) { ohcount_sourcefile_list_free(lists[ai(0)]); lists[ai(0)] = NULL;
  /* Loc algebra */
  } else if (IS("OLNEW")) { locs[ai(0)] = ohcount_loc_list_new();
  } else if (IS("OLADD")) { /* list lang code comments blanks files; lang string kept alive in the pool */
    Loc *l = ohcount_loc_new(intern(argv_[1]), ai(2), ai(3), ai(4), ai(5));
    fprintf(vp_out, ",\"total\":%d", ohcount_loc_total(l));
    ohcount_loc_list_add_loc(locs[ai(0)], l);
    ohcount_loc_free(l);
  } else if (IS("OLADDL")) { ohcount_loc_list_add_loc_list(locs[ai(0)], locs[ai(1)]);
  } else if (IS("OLCOMPACT")) { locs[ai(0)] = ohcount_loc_list_new_compact(locs[ai(1)]);
  } else if (IS("OLGET")) {
    Loc *l = ohcount_loc_list_get_loc(locs[ai(0)], argv_[1]);
    fputs(",\"loc\":", vp_out); if (l) dump_loc(l); else fputs("null", vp_out);
  } else if (IS("OLDUMP")) { fputs(",\"loc\":", vp_out); dump_loclist(locs[ai(0)]); dump_totals(locs[ai(0)]);
  } else if (IS("OLFREE")) { ohcount_loc_list_free(locs[ai(0)]); locs[ai(0)] = NULL;
  } else if (IS("OADD") || IS("OEQ")) { /* two locs: lang,4 ints each */
    Loc *a = ohcount_loc_new(argv_[0], ai(1), ai(2), ai(3), ai(4));
    Loc *b = ohcount_loc_new(argv_[5], ai(6), ai(7), ai(8), ai(9));
    if (IS("OADD")) ohcount_loc_add_loc(a, b);
    fprintf(vp_out, ",\"eq\":%d,\"total\":%d,\"loc\":", ohcount_loc_is_equal(a, b), ohcount_loc_total(a));
    dump_loc(a);
    ohcount_loc_free(a); ohcount_loc_free(b);
  /* LocDelta algebra */
  } else if (IS("DLNEW")) { deltas[ai(0)] = ohcount_loc_delta_list_new();
  } else if (IS("DLADD")) {
    LocDelta *d = ohcount_loc_delta_new(intern(argv_[1]), ai(2), ai(3), ai(4), ai(5), ai(6), ai(7));
    fprintf(vp_out, ",\"changed\":%d,\"net\":[%d,%d,%d,%d]", ohcount_loc_delta_is_changed(d) != 0,
            ohcount_loc_delta_net_code(d), ohcount_loc_delta_net_comments(d), ohcount_loc_delta_net_blanks(d),
            ohcount_loc_delta_net_total(d));
    ohcount_loc_delta_list_add_loc_delta(deltas[ai(0)], d);
    ohcount_loc_delta_free(d);
  } else if (IS("DLADDL")) { ohcount_loc_delta_list_add_loc_delta_list(deltas[ai(0)], deltas[ai(1)]);
  } else if (IS("DLCOMPACT")) { deltas[ai(0)] = ohcount_loc_delta_list_new_compact(deltas[ai(1)]);
  } else if (IS("DLGET")) {
    LocDelta *d = ohcount_loc_delta_list_get_loc_delta(deltas[ai(0)], argv_[1]);
    fputs(",\"delta\":", vp_out); if (d) dump_delta(d); else fputs("null", vp_out);
  } else if (IS("DLDUMP")) { fputs(",\"delta\":", vp_out); dump_deltalist(deltas[ai(0)]); dump_dtotals(deltas[ai(0)]);
  } else if (IS("DLFREE")) { ohcount_loc_delta_list_free(deltas[ai(0)]); deltas[ai(0)] = NULL;
  } else if (IS("DADD") || IS("DEQ")) {
    LocDelta *a = ohcount_loc_delta_new(argv_[0], ai(1), ai(2), ai(3), ai(4), ai(5), ai(6));
    LocDelta *b = ohcount_loc_delta_new(argv_[7], ai(8), ai(9), ai(10), ai(11), ai(12), ai(13));
    if (IS("DADD")) ohcount_loc_delta_add_loc_delta(a, b);
    fprintf(vp_out, ",\"eq\":%d,\"delta\":", ohcount_loc_delta_is_equal(a, b));
    dump_delta(a);
    ohcount_loc_delta_free(a); ohcount_loc_delta_free(b);
  /* environment */
  } else if (IS("SIZE")) {
    fprintf(vp_out, ",\"size\":%d", ohcount_sourcefile_get_contents_size(R(0)));
  } else if (IS("WRITE")) {
    FILE *f = fopen(argv_[0], "wb");
    if (!f || fwrite(argv_[1], 1, argl_[1], f) != argl_[1]) { fprintf(stderr, "DRIVER: write %s failed\n", argv_[0]); exit(99); }
    fclose(f);
  } else if (IS("ATREAD") || IS("READFAIL")) {
    free(vp_at_path); free(vp_at_data);
    vp_at_path = strdup(argv_[0]); vp_at_data = NULL; vp_at_len = vp_at_fail = -1;
    if (IS("ATREAD")) { vp_at_len = argl_[1]; vp_at_data = malloc(vp_at_len + 1); memcpy(vp_at_data, argv_[1], vp_at_len); }
    else vp_at_fail = atol(argv_[1]);
  } else if (IS("ATHITS")) {
    fprintf(vp_out, ",\"hits\":%d", vp_at_hits); vp_at_hits = 0;
    free(vp_at_path); vp_at_path = NULL; free(vp_at_data); vp_at_data = NULL;
  } else if (IS("UNLINK")) { unlink(argv_[0]);
  } else if (IS("FDS")) {
    int n = 0; DIR *d = opendir("/proc/self/fd");
    struct dirent *e;
    while (d && (e = readdir(d))) {
      char path[300], to[300];
      ssize_t l;
      snprintf(path, sizeof path, "/proc/self/fd/%s", e->d_name);
      l = readlink(path, to, sizeof to);
      /* the thread that watches the sanitizer's memory limit opens this file and closes it, maybe before it is looked at */
      if (l < 0 || l > 6 && !strncmp(to + l - 6, "/statm", 6)) continue;
      n++;
    }
    if (d) closedir(d);
    fprintf(vp_out, ",\"fds\":%d", n);
    int left = 0;
    for (int i = 0; i < vp_ntemps; i++) { if (access(vp_temps[i], F_OK) == 0) { left++; unlink(vp_temps[i]); } }
    fprintf(vp_out, ",\"temps\":%d,\"left\":%d", vp_ntemps, left);
    vp_ntemps = 0;
  } else if (IS("LEAK")) {
#ifdef VP_LSAN
    {
      int leaked = __lsan_do_recoverable_leak_check();
      fprintf(vp_out, ",\"leak\":%d", leaked);
      if (leaked) { fputs("}\n", vp_out); fflush(vp_out); _exit(77); } /* the report on stderr names the site */
    }
#else
    fputs(",\"leak\":-1", vp_out);
#endif
  } else {
    fprintf(stderr, "DRIVER: unknown op %s\n", op);
    exit(99);
  }
  fputs("}\n", vp_out);
}

int main(int argc, char **argv) {
  /* a record that never ends must not fill the disk; without sanitizers the memory is bounded here, with them by their options */
  struct rlimit file = { 256 << 20, 256 << 20 };
  setrlimit(RLIMIT_FSIZE, &file);
#ifdef VP_MEMLIMIT
  struct rlimit mem = { 3500UL << 20, 3500UL << 20 };
  setrlimit(RLIMIT_AS, &mem);
#endif

  FILE *f;
  size_t skip = argc > 3 ? (size_t)atol(argv[3]) : 0, i;
  if (argc < 3) return 98;
  f = fopen(argv[1], "rb");
  if (!f) return 98;
  fseek(f, 0, SEEK_END); vp_len = ftell(f); rewind(f);
  vp_src = malloc(vp_len + 1);
  if (fread(vp_src, 1, vp_len, f) != vp_len) return 98;
  vp_src[vp_len] = 0;
  fclose(f);
  vp_out = fopen(argv[2], "ab");
  if (!vp_out) return 98;
  {
    static char big[1 << 16];
    setvbuf(vp_out, big, _IOFBF, sizeof big);
  }
  size_t casen = 0; int active = 1;
  while (vp_pos < vp_len) {
    char op[32]; size_t k = 0;
    while (vp_pos < vp_len && vp_src[vp_pos] != ' ' && k < 31) op[k++] = vp_src[vp_pos++];
    op[k] = 0; vp_pos++;
    rd_args(rd_num());
    if (strcmp(op, "CASE") == 0) {
      active = casen >= skip;
      casen++;
      if (active) {
        /* release whatever the previous case left behind */
        for (i = 0; i < NREG; i++) if (regs[i]) { ohcount_sourcefile_free(regs[i]); regs[i] = NULL; free_fn(i); }
        for (i = 0; i < 64; i++) if (lists[i]) { ohcount_sourcefile_list_free(lists[i]); lists[i] = NULL; }
        fprintf(vp_out, "{\"case\":%zu}\n", casen - 1);
        fflush(vp_out);
      }
    } else if (active) {
      run_op(op);
    }
    for (i = 0; i < argc_; i++) { free(argv_[i]); argv_[i] = NULL; }
    argc_ = 0;
  }
  for (i = 0; i < NREG; i++) if (regs[i]) { ohcount_sourcefile_free(regs[i]); regs[i] = NULL; free_fn(i); }
  fputs("{\"end\":1}\n", vp_out);
  fclose(vp_out);
  free(vp_src);
  return 0;
}
