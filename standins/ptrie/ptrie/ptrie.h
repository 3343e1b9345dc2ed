// Stand-in for github.com/petergjoel/ptrie (not available offline).
// Same interface as the subset used by verifypn, backed by a hash map; the
// semantics (set of byte strings with stable dense ids) are those of the
// original. It is part of the test environment, not of the code under test.
#ifndef VP_STANDIN_PTRIE_H
#define VP_STANDIN_PTRIE_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <limits>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace ptrie {
    typedef unsigned int uint;
    typedef unsigned char uchar;

    namespace standin {
        template<typename KEY>
        class base {
        public:
            typedef KEY key_t;
            static_assert(std::is_trivially_copyable<KEY>::value, "keys are raw memory");

            std::pair<bool, size_t> insert(const KEY* data, size_t length) {
                std::string s(reinterpret_cast<const char*>(data), length * sizeof(KEY));
                auto it = _index.find(s);
                if (it != _index.end()) return {false, it->second};
                size_t id = _keys.size();
                auto r = _index.emplace(std::move(s), id);
                _keys.push_back(&r.first->first);
                return {true, id};
            }
            std::pair<bool, size_t> insert(const KEY data) { return insert(&data, 1); }
            std::pair<bool, size_t> insert(const std::pair<KEY*, size_t>& p) { return insert(p.first, p.second); }
            std::pair<bool, size_t> insert(const std::vector<KEY>& v) { return insert(v.data(), v.size()); }

            std::pair<bool, size_t> exists(const KEY* data, size_t length) const {
                std::string s(reinterpret_cast<const char*>(data), length * sizeof(KEY));
                auto it = _index.find(s);
                if (it != _index.end()) return {true, it->second};
                return {false, std::numeric_limits<size_t>::max()};
            }
            std::pair<bool, size_t> exists(const KEY data) const { return exists(&data, 1); }
            std::pair<bool, size_t> exists(const std::pair<KEY*, size_t>& p) const { return exists(p.first, p.second); }
            std::pair<bool, size_t> exists(const std::vector<KEY>& v) const { return exists(v.data(), v.size()); }

            size_t size() const { return _keys.size(); }

        protected:
            std::unordered_map<std::string, size_t> _index; // node based: addresses of keys are stable
            std::deque<const std::string*> _keys;
        };
    }

    template<typename KEY = uchar, uint16_t HEAPBOUND = 128, uint16_t SPLITBOUND = 128, size_t ALLOCSIZE = 4>
    class set : public standin::base<KEY> {
    public:
        set() = default;
        set(const set&) = delete;
        set& operator=(const set&) = delete;
        set(set&&) = default;
        set& operator=(set&&) = default;
    };
}
#endif
