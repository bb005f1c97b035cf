// flags: -fno-access-control
// C13, C14: files and mappings, whatever each call of the operating system returns
#include "buf.hpp"
#include <stdio.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>
extern "C" int vk_opaque_int() noexcept;
extern "C" long vk_opaque_long() noexcept;
extern "C" bool vk_opaque_bool() noexcept;
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
// One arbitrary open file.
static char f_here;
#define F_OBJ ((FILE *)&f_here)
static bool f_open, f_failed, f_err, f_eof; // open; some call about it failed; the indicators
static unsigned f_opens;
static size_t f_size, f_pos; // what it holds, and where its next byte is read
static const char *f_text, *f_name;
static bool f_short; // it was cut short by another process after its length was asked
// One arbitrary mapping.
static void *m_obj;
static size_t m_len;
static bool m_live, m_failed;
static unsigned m_maps;
// stat and rename
static int s_rc, s_mode, r_rc;
static const char *s_of, *s_name, *r_from, *r_to;
static unsigned r_calls;
static FILE *vk_fopen(const char *name, const char *modes) {
    if(f_open)
        E_FAIL("a file is closed before the next one is opened");
    if(modes[0] != 'r' || modes[1] == '+' || (modes[1] && modes[2] == '+'))
        E_FAIL("a file to be read is opened for reading only");
    if(vk_opaque_bool()) {
        f_failed = true;
        return nullptr;
    }
    f_name = name;
    f_open = true;
    ++f_opens;
    f_pos = 0;
    return F_OBJ;
}
#define F_USE                                                                                      \
    if(f != F_OBJ || !f_open)                                                                      \
        E_FAIL("only the file that is open is used");
static int vk_fclose(FILE *f) {
    if(f != F_OBJ || !f_open)
        E_FAIL("a file is closed once, and only when it was opened");
    f_open = false;
    return 0;
}
static int vk_fseek(FILE *f, long offset, int whence) {
    F_USE
    if(vk_opaque_bool()) {
        f_failed = true;
        return -1;
    }
    if(offset != 0 || (whence != SEEK_SET && whence != SEEK_END))
        E_FAIL("only its beginning and its end are sought");
    f_pos = whence == SEEK_END ? f_size : 0;
    return 0;
}
static long vk_ftell(FILE *f) {
    F_USE
    if(vk_opaque_bool()) {
        f_failed = true;
        return -1;
    }
    return f_pos;
}
static void vk_rewind(FILE *f) {
    F_USE
    if(vk_opaque_bool())
        f_failed = true;
    else
        f_pos = 0;
}
static size_t vk_fread(void *p, size_t size, size_t count, FILE *f) {
    F_USE
    if(size != 1 && count != 1)
        E_FAIL("what is read is a number of bytes");
    const size_t want = size == 1 ? count : size, got = vk_opaque_index();
    ASSUME(got <= want && got <= f_size - f_pos && f_pos <= f_size);
    if(got < want) {
        if(vk_opaque_bool())
            f_err = f_failed = true;
        else {
            f_eof = true;
            if(got != f_size - f_pos)
                f_short = true;
        }
    }
    if(want == 1) {
        if(got)
            *(char *)p = f_text[f_pos];
    } else if(got)
        memcpy(p, f_text + f_pos, got);
    f_pos += got;
    return size == 1 ? got : got == size;
}
static int vk_ferror(FILE *f) {
    F_USE
    return f_err;
}
static int vk_feof(FILE *f) {
    F_USE
    return f_eof;
}
static int vk_fileno(FILE *f) {
    F_USE
    return 7;
}
static void *vk_mmap(void *where, size_t n, int prot, int flags, int fd, long offset) {
    if(where || prot != PROT_READ || offset != 0 || (flags & MAP_FIXED) || (flags & MAP_ANONYMOUS))
        E_FAIL("the file is mapped from its beginning, for reading");
    if(!f_open || fd != 7)
        E_FAIL("the file that is open is mapped");
    if(m_live)
        E_FAIL("one mapping at a time");
    if(n == 0 || n >= LIM || vk_opaque_bool()) {
        m_failed = true;
        return MAP_FAILED;
    }
    m_live = true;
    ++m_maps;
    m_len = n;
    return m_obj;
}
static int vk_munmap(void *p, size_t n) {
    if(p != m_obj || n != m_len || !m_live)
        E_FAIL("a mapping is released once, in its whole length");
    m_live = false;
    return vk_opaque_int();
}
static int vk_stat(const char *name, struct stat *sb) {
    const bool main = !s_of || name == s_of;
    const int rc = main ? s_rc : vk_opaque_int();
    s_name = name;
    if(rc == 0)
        sb->st_mode = main ? s_mode : vk_opaque_int();
    return rc;
}
static int vk_rename(const char *from, const char *to) {
    r_from = from;
    r_to = to;
    ++r_calls;
    return r_rc;
}
static inline size_t vk_strlen(const char *p) {
    const size_t l = vk_opaque_index();
    ASSUME(l < LIM && p[l] == '\0');
    return l;
}
#define strlen vk_strlen
#define fopen vk_fopen
#define fclose vk_fclose
#define fseek vk_fseek
#define ftell vk_ftell
#define rewind vk_rewind
#define fread vk_fread
#undef ferror
#undef feof
#undef fileno
#define ferror vk_ferror
#define feof vk_feof
#define fileno vk_fileno
#define mmap vk_mmap
#define munmap vk_munmap
#define rename vk_rename
#define perror(x)
#define stat(a, b) vk_stat(a, b)
#include "pystd2026.cpp"
#include "pystd2026_filesystem.cpp"
#undef stat
using namespace V;

#define WORLD(text)                                                                                \
    g_follow = 0;                                                                                  \
    g_out = g_w1 = g_w4 = g_live = nullptr;                                                        \
    g_nalloc = g_alternate = 0;                                                                    \
    f_open = f_failed = f_err = f_eof = f_short = m_live = m_failed = false;                                 \
    f_opens = m_maps = r_calls = 0;                                                      \
    f_size = vk_opaque_index();                                                                    \
    f_pos = 0;                                                                                     \
    f_text = text;                                                                                 \
    f_name = nullptr;                                                                              \
    m_obj = (void *)vk_opaque_index();                                                             \
    s_rc = vk_opaque_int();                                                                        \
    s_mode = vk_opaque_int();                                                                      \
    r_rc = vk_opaque_int();                                                                        \
    s_of = nullptr;                                                                                \
    g_top = nullptr;                                                                               \
    ASSUME(f_size < LIM && f_text && (size_t)f_text < LIM * 8);                                    \
    ASSUME(m_obj && m_obj != MAP_FAILED);                                                          \
    g_top2 = f_text + f_size;
#define GIVEN(p)                                                                                   \
    Path p(p##_in);                                                                                \
    const char *const p##_name = p.c_str();

CONTRACT(C14_load_bytes_closes)(const Path &p, const char *text) {
    WORLD(text)
    bool raised = false;
    Optional<Bytes> r;
    try {
        r = ((Path &)p).load_bytes();
    } catch(...) { raised = true; }
    REQUIRE(!f_open);
    REQUIRE(!raised && f_opens <= 1);
    if(f_opens)
        REACH();
    else
        REACH();
}
CONTRACT(C13_load_bytes)(const Path &p, const char *text) {
    WORLD(text)
    Optional<Bytes> r(((Path &)p).load_bytes());
    if(r) {
        REQUIRE(!f_failed && !f_short && f_name == p.c_str());
        REQUIRE(r->size() == f_size);
        REACH();
    } else {
        REQUIRE(f_failed || f_short || (s_rc == 0 && (s_mode & S_IFMT) != S_IFREG));
        REACH();
    }
}
CONTRACT(C13_load_bytes_content)(const Path &p, const char *__restrict text, size_t k) {
    WORLD(text)
    ASSUME(k < f_size);
    vk_watch8(1, text + k);
    const char y = text[k];
    g_k0 = k;
    g_follow = 1;
    Optional<Bytes> r(((Path &)p).load_bytes());
    if(r) {
        REQUIRE(r->data()[k] == y);
        REACH();
    }
}
CONTRACT(C14_mmap_file)(const char *name, const char *text) {
    WORLD(text)
    bool raised = false;
    {
        Optional<MMapping> r;
        try {
            r = mmap_file(name);
        } catch(...) { raised = true; }
        REQUIRE(!f_open && !raised);
        REQUIRE(m_live == (bool)r);
        REQUIRE(f_opens <= 1 && m_maps <= 1);
    }
    REQUIRE(!m_live);
    if(m_maps)
        REACH();
    else
        REACH();
}
CONTRACT(C13_mmap_file)(const char *name, const char *text) {
    WORLD(text)
    Optional<MMapping> r(mmap_file(name));
    if(r) {
        REQUIRE(f_name == name);
        REQUIRE(r->span().begin() == (const char *)m_obj && r->span().size() == f_size);
        REACH();
    } else {
        REQUIRE(f_failed || m_failed || f_size == 0);
        REACH();
    }
}
CONTRACT(C13_exists)(const Path &p, const char *text) {
    WORLD(text)
    const bool r = p.exists();
    REQUIRE(s_name == p.c_str());
    REQUIRE(r == (s_rc == 0));
    REACH();
}
CONTRACT(C13_is_file)(const Path &p, const char *text) {
    WORLD(text)
    const bool r = p.is_file();
    REQUIRE(s_name == p.c_str());
    REQUIRE(r == (s_rc == 0 && S_ISREG(s_mode)));
    REACH();
}
CONTRACT(C13_is_dir)(const Path &p, const char *text) {
    WORLD(text)
    const bool r = p.is_dir();
    REQUIRE(s_name == p.c_str());
    REQUIRE(r == (s_rc == 0 && S_ISDIR(s_mode)));
    REACH();
}
CONTRACT(C13_rename_to)(const Path &p, const Path &q, const char *text) {
    WORLD(text)
    const char *const from = p.c_str(), *const to = q.c_str();
    ASSUME(from != to);
    s_of = to;
    const bool dir = s_rc == 0 && S_ISDIR(s_mode), works = r_rc == 0;
    const bool r = p.rename_to(q);
    REQUIRE(r == (r_calls == 1 && works));
    REQUIRE(r_calls == (dir ? 0 : 1));
    if(r_calls) {
        REQUIRE(r_from == from && r_to == to);
        REACH();
    } else
        REACH();
}
// A line is what follows in the file up to the next end of line; or up to the end of the file.
#define FILE_AT(p0)                                                                                \
    const size_t p0 = vk_opaque_index();                                                           \
    ASSUME(p0 <= f_size);                                                                          \
    f_pos = p0;                                                                                    \
    f_open = true;
union FHold {
    char c;
    File f;
    FHold() : c{} {}
    ~FHold() {}
};
CONTRACT(C14_file_closes)(const char *name, const char *text) {
    WORLD(text)
    vk_may_end = true;
    FHold h;
    new(&h.f) File(name, "rb");
    vk_may_end = false;
    REQUIRE(f_open && f_opens == 1);
    h.f.~File();
    REQUIRE(!f_open);
    REACH();
}
CONTRACT(C13_readline)(const char *text) {
    WORLD(text)
    FILE_AT(p0)
    vk_may_end = true;
    FHold h;
    h.f.f = F_OBJ;
    Bytes b(h.f.readline_bytes());
    REQUIRE(f_open && !f_err);
    if(f_eof) {
        REQUIRE(f_short || f_pos == f_size);
        REQUIRE(b.size() == f_pos - p0 || b.size() == f_pos - p0 + 1);
        REACH();
    } else {
        REQUIRE(b.size() == f_pos - p0);
        REACH();
    }
}
CONTRACT(C13_readline_content)(const char *__restrict text, size_t k) {
    WORLD(text)
    FILE_AT(p0)
    ASSUME(p0 <= k && k < f_size);
    vk_watch8(1, text + k);
    const char y = text[k];
    vk_side(k);
    g_k0 = k - p0;
    g_follow = 1;
    g_alternate = 1;
    vk_may_end = true;
    FHold h;
    h.f.f = F_OBJ;
    Bytes b(h.f.readline_bytes());
    if(k < f_pos) {
        REQUIRE(b.data()[k - p0] == y);
        REACH();
    }
}
CONTRACT(C13_readline_stops)(const char *__restrict text, size_t k) {
    WORLD(text)
    FILE_AT(p0)
    ASSUME(p0 <= k && k < f_size);
    vk_watch8(1, text + k);
    const char y = text[k];
    ASSUME(y == '\n');
    vk_side(k);
    vk_may_end = true;
    FHold h;
    h.f.f = F_OBJ;
    Bytes b(h.f.readline_bytes());
    REQUIRE(f_pos <= k + 1);
    REACH();
}
CONTRACT(C13_readline_ends)(const char *__restrict text, size_t k) {
    WORLD(text)
    FILE_AT(p0)
    ASSUME(p0 <= k && k < f_size);
    vk_watch8(1, text + k);
    const char y = text[k];
    vk_side(k);
    vk_may_end = true;
    FHold h;
    h.f.f = F_OBJ;
    Bytes b(h.f.readline_bytes());
    if(f_pos == k + 1 && !f_eof)
        REQUIRE(y == '\n');
    REACH();
}
