#ifndef VP_STANDIN_PTRIE_STABLE_H
#define VP_STANDIN_PTRIE_STABLE_H
#include "ptrie.h"
namespace ptrie {
    template<typename KEY = uchar, typename I = size_t, uint16_t HEAPBOUND = 128, uint16_t SPLITBOUND = 128, size_t ALLOCSIZE = 4>
    class set_stable : public standin::base<KEY> {
    public:
        set_stable() = default;
        set_stable(const set_stable&) = delete;
        set_stable& operator=(const set_stable&) = delete;
        set_stable(set_stable&&) = default;
        set_stable& operator=(set_stable&&) = default;

        size_t unpack(I index, KEY* destination) const {
            const std::string& s = *this->_keys.at(index);
            if (!s.empty()) std::memcpy(destination, s.data(), s.size());
            return s.size() / sizeof(KEY);
        }
        std::vector<KEY> unpack(I index) const {
            const std::string& s = *this->_keys.at(index);
            std::vector<KEY> v(s.size() / sizeof(KEY));
            if (!s.empty()) std::memcpy(v.data(), s.data(), s.size());
            return v;
        }
    };
}
#endif
