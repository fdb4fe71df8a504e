#pragma once
#include <string>
#include <cstdint>
namespace uhd {
struct time_spec_t { double t; time_spec_t(double x = 0) : t(x) {} int64_t get_full_secs() const { return (int64_t)t; } double get_frac_secs() const { return t - (double)(int64_t)t; } bool operator==(const time_spec_t& o) const { return t == o.t; } };
struct rx_metadata_t { enum error_code_t { ERROR_CODE_NONE = 0, ERROR_CODE_TIMEOUT = 1, ERROR_CODE_LATE_COMMAND = 2, ERROR_CODE_BROKEN_CHAIN = 4, ERROR_CODE_OVERFLOW = 8, ERROR_CODE_ALIGNMENT = 12, ERROR_CODE_BAD_PACKET = 15 } error_code = ERROR_CODE_NONE; bool has_time_spec = false; time_spec_t time_spec; bool more_fragments = false, start_of_burst = false, end_of_burst = false, out_of_sequence = false; std::string strerror() const { return "error"; } };
struct tx_metadata_t { bool has_time_spec = false; time_spec_t time_spec; bool start_of_burst = false, end_of_burst = false; };
struct async_metadata_t { size_t channel = 0; bool has_time_spec = false; time_spec_t time_spec; enum event_code_t { EVENT_CODE_BURST_ACK = 1, EVENT_CODE_UNDERFLOW = 2, EVENT_CODE_SEQ_ERROR = 4, EVENT_CODE_TIME_ERROR = 8, EVENT_CODE_UNDERFLOW_IN_PACKET = 16, EVENT_CODE_SEQ_ERROR_IN_BURST = 32, EVENT_CODE_USER_PAYLOAD = 64 } event_code = EVENT_CODE_BURST_ACK; };
}
