// C28: Mutex, LockGuard and Thread
#include "vk.hpp"
#include <pthread.h>
extern "C" int vk_opaque_int() noexcept;
extern "C" size_t vk_opaque_size() noexcept;
#define E_FAIL(t) [[clang::nomerge]] vk_fail(t, __LINE__)
// One arbitrary mutex and one arbitrary thread are followed.
static const void *m_obj;
static bool m_live, m_locked;
static unsigned m_lives; // initialisations minus destructions
static const void *a_obj;
static int a_live;
static bool t_created;      // by the call followed
static unsigned t_ended;    // joins and detaches of it
static pthread_t t_id;      // what creation stored
static void *(*t_main)(void *);
static void *t_arg;
static int m_rc, t_rc;
static bool m_tried;
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept {
    if(m == m_obj) {
        if(m_live)
            ++m_lives;
        m_live = true;
        m_locked = false;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
    if(m == m_obj) {
        if(!m_live)
            E_FAIL("no mutex is destroyed twice");
        if(m_locked)
            return 16; // EBUSY
        m_live = false;
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if(m != m_obj || !m_live)
        E_FAIL("only an initialised mutex is locked");
    m_rc = vk_opaque_int();
    if(m_rc == 0) {
        if(m_locked)
            E_FAIL("no mutex is locked twice by one owner");
        m_locked = true;
    }
    return m_rc;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if(m != m_obj || !m_live)
        E_FAIL("only an initialised mutex is locked");
    m_tried = true;
    m_rc = vk_opaque_int();
    if(m_rc == 0) {
        if(m_locked)
            E_FAIL("no mutex is locked twice by one owner");
        m_locked = true;
    }
    return m_rc;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if(m != m_obj || !m_live)
        E_FAIL("only an initialised mutex is unlocked");
    if(!m_locked)
        E_FAIL("only a locked mutex is unlocked");
    m_rc = vk_opaque_int();
    if(m_rc == 0)
        m_locked = false;
    return m_rc;
}
int pthread_attr_init(pthread_attr_t *a) noexcept {
    const int rc = vk_opaque_int();
    if(rc == 0) {
        a_obj = a;
        ++a_live;
    }
    return rc;
}
int pthread_attr_destroy(pthread_attr_t *a) noexcept {
    if(a != a_obj || a_live != 1)
        E_FAIL("only initialised attributes are destroyed, once");
    --a_live;
    return 0;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) noexcept {
    if(a && (a != a_obj || a_live != 1))
        E_FAIL("a thread is created with initialised attributes");
    if(t_created)
        E_FAIL("only one thread is created");
    t_rc = vk_opaque_int();
    if(t_rc == 0) {
        t_id = vk_opaque_size();
        *t = t_id;
        t_main = f;
        t_arg = arg;
        t_created = true;
    }
    return t_rc;
}
int pthread_join(pthread_t t, void **) {
    if(t != t_id)
        E_FAIL("the thread joined is the one created");
    if(t_ended)
        E_FAIL("no thread is joined after it was joined or detached");
    ++t_ended;
    return 0;
}
int pthread_detach(pthread_t t) noexcept {
    if(t != t_id)
        E_FAIL("the thread detached is the one created");
    if(t_ended)
        E_FAIL("no thread is detached after it was joined or detached");
    ++t_ended;
    return 0;
}
}
#include "pystd2026.cpp"
#include "pystd2026_threading.cpp"
using namespace V;
void operator delete[](void *) noexcept {}
void operator delete(void *) noexcept {}
union MHold {
    char c;
    Mutex m;
    MHold() : c{} {}
    ~MHold() {}
};
union THold {
    char c;
    Thread t;
    THold() : c{} {}
    ~THold() {}
};
#define MUTEX(m)                                                                                   \
    MHold hold;                                                                                    \
    m_obj = &hold.m;                                                                               \
    m_live = m_locked = false;                                                                     \
    m_lives = 0;                                                                                   \
    m_tried = false;                                                                               \
    Mutex &m = *new(&hold.m) Mutex;

CONTRACT(C28_mutex_life)() {
    MUTEX(m)
    REQUIRE(m_live);
    REQUIRE(!m_locked && m_lives == 0);
    m.~Mutex();
    REQUIRE(!m_live);
    REACH();
}
CONTRACT(C28_mutex_lock)() {
    MUTEX(m)
    bool raised = false;
    try {
        m.lock();
    } catch(...) { raised = true; }
    REQUIRE(m_locked == !raised);
    REQUIRE(raised == (m_rc != 0));
    if(raised)
        REACH();
    else
        REACH();
}
CONTRACT(C28_mutex_try_lock)() {
    MUTEX(m)
    bool raised = false, r = false;
    try {
        r = m.try_lock();
    } catch(...) { raised = true; }
    REQUIRE(m_tried);
    REQUIRE(m_locked == r);
    if(raised) {
        REQUIRE(m_rc != 0 && !m_locked);
        REACH();
    } else
        REACH();
    if(m_rc == 0)
        REQUIRE(r);
}
CONTRACT(C28_mutex_unlock)() {
    MUTEX(m)
    bool raised = false;
    m_locked = true;
    try {
        m.unlock();
    } catch(...) { raised = true; }
    REQUIRE(raised == m_locked);
    REQUIRE(raised == (m_rc != 0));
    if(raised)
        REACH();
    else
        REACH();
}
// A guard locks what it is given and unlocks it once, when it ends, whatever happens in between;
// when it cannot lock it raises and never unlocks.
struct Lk {
    int locked, unlocked, attempts;
    void lock() {
        ++attempts;
        if(vk_opaque_int())
            throw 1;
        ++locked;
    }
    void unlock() noexcept {
        if(unlocked >= locked)
            E_FAIL("a guard unlocks only what it locked");
        ++unlocked;
    }
};
CONTRACT(C28_guard)() {
    Lk m{0, 0, 0};
    bool raised = false, inside = false, threw = false;
    try {
        LockGuard<Lk> g(m);
        REQUIRE(m.locked == 1 && m.unlocked == 0);
        inside = true;
        if(vk_opaque_int()) {
            threw = true;
            throw 2;
        }
    } catch(...) { raised = true; }
    REQUIRE(m.attempts == 1);
    REQUIRE(m.unlocked == m.locked);
    REQUIRE(inside == (m.locked == 1));
    REQUIRE(raised == (threw || !inside));
    if(inside)
        REACH();
    else
        REACH();
}
CONTRACT(C28_guard_of_mutex)() {
    MUTEX(m)
    vk_may_end = true; // a mutex that cannot be unlocked
    try {
        LockGuard<Mutex> g(m);
        REQUIRE(m_locked);
        REACH();
        m_tried = true;
        ASSUME(m_locked);
    } catch(...) {}
    REQUIRE(!m_locked);
    REACH();
}

static void *t_body(void *) { return nullptr; }
#define THREAD                                                                                     \
    THold hold;                                                                                    \
    t_created = false;                                                                             \
    t_ended = 0;                                                                                   \
    a_live = 0;                                                                                    \
    a_obj = nullptr;                                                                               \
    bool raised = false;                                                                           \
    int x;                                                                                         \
    try {                                                                                          \
        new(&hold.t) Thread(t_body, &x);                                                           \
    } catch(...) { raised = true; }

CONTRACT(C28_thread_start)() {
    THREAD
    REQUIRE(t_created == !raised);
    REQUIRE(a_live == 0);
    REQUIRE(t_ended == 0);
    if(raised)
        REACH();
    else {
        REQUIRE(t_main == t_body && t_arg == &x);
        REACH();
    }
}
#define STARTED                                                                                    \
    THREAD                                                                                         \
    ASSUME(!raised);
CONTRACT(C28_thread_end)() {
    STARTED
    hold.t.~Thread();
    REQUIRE(t_ended == 1);
    REACH();
}
CONTRACT(C28_thread_join)() {
    STARTED
    hold.t.join();
    REQUIRE(t_ended == 1);
    hold.t.~Thread();
    REQUIRE(t_ended == 1);
    REACH();
}
CONTRACT(C28_thread_detach)() {
    STARTED
    hold.t.detach();
    REQUIRE(t_ended == 1);
    hold.t.~Thread();
    REQUIRE(t_ended == 1);
    REACH();
}
// joining or detaching what was joined or detached already raises and does not touch the thread
#define C_TWICE(a, b)                                                                              \
    CONTRACT(C28_thread_##a##_##b)() {                                                             \
        STARTED                                                                                    \
        hold.t.a();                                                                                \
        bool again = false;                                                                        \
        try {                                                                                      \
            hold.t.b();                                                                            \
        } catch(...) { again = true; }                                                             \
        REQUIRE(again);                                                                            \
        hold.t.~Thread();                                                                          \
        REQUIRE(t_ended == 1);                                                                     \
        REACH();                                                                                   \
    }
C_TWICE(join, join)
C_TWICE(join, detach)
C_TWICE(detach, join)
C_TWICE(detach, detach)
