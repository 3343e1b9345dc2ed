#ifndef VP_STANDIN_PTRIE_MAP_H
#define VP_STANDIN_PTRIE_MAP_H
#include "ptrie_stable.h"
#include <memory>
namespace ptrie {
    template<typename KEY, typename T, uint16_t HEAPBOUND = 128, uint16_t SPLITBOUND = 128, size_t ALLOCSIZE = 4, typename I = size_t>
    class map : public set_stable<KEY, I, HEAPBOUND, SPLITBOUND, ALLOCSIZE> {
        using parent = set_stable<KEY, I, HEAPBOUND, SPLITBOUND, ALLOCSIZE>;
    public:
        map() = default;
        map(map&&) = default;
        map& operator=(map&&) = default;

        T& get_data(I index) {
            while (_data.size() <= index) _data.emplace_back(new T());
            return *_data[index];
        }
        const T& get_data(I index) const { return const_cast<map*>(this)->get_data(index); }
        T& operator[](KEY key) { return get_data(this->insert(key).second); }
        T& operator[](const std::pair<KEY*, size_t>& key) { return get_data(this->insert(key.first, key.second).second); }
        T& operator[](const std::vector<KEY>& key) { return get_data(this->insert(key.data(), key.size()).second); }
    private:
        std::vector<std::unique_ptr<T>> _data;
    };
}
#endif
