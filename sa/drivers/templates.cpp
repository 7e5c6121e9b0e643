// Instantiates the header-only templates of the library so that the analysis
// sees their bodies.  Never linked or run.
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <cy_crypt.h>
#include <utility/cyu_ring_queue.h>
#include <utility/cyu_statistics.h>

namespace cyclone {
// number of log levels
extern const int vp_log_levels = L_MAXIMUM_LEVEL;
// first id of the acceptor's messages that belong to the user
extern const int vp_custom_master = TcpServer::kCustomMasterThreadCmdID_Begin;

template class LockFreeQueue<int64_t, 256>;
template class LockFreeQueue<int64_t, 2>;
template class RingQueue<int64_t>;
template struct MinMaxValue<int32_t>;
template struct MinMaxValue<size_t>;
template struct PeriodValue<int64_t, true>;
}
