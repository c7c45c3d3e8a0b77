// A team of threads with a deadline: if a member does not finish, the case fails and its shared state is abandoned.
#pragma once
#include "vf.h"
#include <functional>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace vf {

inline uint64_t nowNs(clockid_t c = CLOCK_MONOTONIC) {
    struct timespec t;
    clock_gettime(c, &t);
    return (uint64_t) t.tv_sec * 1000000000ull + (uint64_t) t.tv_nsec;
}
inline void nap(uint32_t us) {
    struct timespec t = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
    while (nanosleep(&t, &t) != 0) {
    }
}
// A bit of schedule noise.
inline void jitter(Rng& r) {
    switch (r.below(12)) {
        case 0:
        case 1:
            sched_yield();
            break;
        case 2:
            nap(r.below(60));
            break;
        case 3:
            for (volatile uint32_t i = r.below(400); i > 0; i = i - 1) {
            }
            break;
    }
}

struct Team {
    struct Member {
        std::function<void()> f;
        pthread_t t;
    };
    std::vector<std::shared_ptr<Member>> members;
    static void* entry(void* p) {
        std::shared_ptr<Member>* m = (std::shared_ptr<Member>*) p;
        (*m)->f();
        delete m;
        return nullptr;
    }
    void add(std::function<void()> f) {
        std::shared_ptr<Member> m(new Member{std::move(f), 0});
        members.push_back(m);
        if (pthread_create(&m->t, nullptr, entry, new std::shared_ptr<Member>(m)) != 0)
            abort();
    }
    // The number of members that did not finish in time.
    int join(int seconds = 30) {
        struct timespec until;
        clock_gettime(CLOCK_REALTIME, &until);
        until.tv_sec += seconds;
        int stuck = 0;
        for (auto& m : members)
            if (pthread_timedjoin_np(m->t, nullptr, &until) != 0) {
                stuck++;
                pthread_detach(m->t);
            }
        members.clear();
        return stuck;
    }
};

} // namespace vf
