#include <cstddef>
#include <unistd.h>
namespace open_comp_graph {
namespace internal {
size_t get_total_system_memory_as_bytes() {
    return (size_t)sysconf(_SC_PHYS_PAGES) * (size_t)sysconf(_SC_PAGE_SIZE);
}
}
}
