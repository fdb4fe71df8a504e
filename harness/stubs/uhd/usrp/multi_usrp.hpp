// The part of the UHD API that the blocks use; h_sdr.cpp implements the device behind it.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include "uhd/types/metadata.hpp"
#include "uhd/types/tune_request.hpp"
namespace uhd {
template <class T> class ref_vector { T* mem_; size_t n_; T one_; public: // a pointer is a vector of one, otherwise refers to the elements of a vector
    ref_vector(T p) : mem_(nullptr), n_(1), one_(p) {} template <class U> ref_vector(U* p) : mem_(nullptr), n_(1), one_(static_cast<T>(p)) {} template <class U> ref_vector(const std::vector<U>& v) : mem_((T*)v.data()), n_(v.size()), one_() {} template <class U> ref_vector(const std::vector<U>& v, size_t n) : mem_((T*)v.data()), n_(n), one_() {} ref_vector(T* p, size_t n) : mem_(p), n_(n), one_() {}
    const T& operator[](size_t i) const { return mem_ ? mem_[i] : one_; } size_t size() const { return n_; } };
struct stream_args_t { std::string cpu_format, otw_format; std::vector<size_t> channels; stream_args_t(const std::string& c = "", const std::string& o = "") : cpu_format(c), otw_format(o) {} };
struct stream_cmd_t { enum stream_mode_t { STREAM_MODE_START_CONTINUOUS = 'a', STREAM_MODE_STOP_CONTINUOUS = 'o', STREAM_MODE_NUM_SAMPS_AND_DONE = 'd', STREAM_MODE_NUM_SAMPS_AND_MORE = 'm' } stream_mode; bool stream_now = true; time_spec_t time_spec; size_t num_samps = 0; stream_cmd_t(stream_mode_t m) : stream_mode(m) {} };
struct rx_streamer { typedef std::shared_ptr<rx_streamer> sptr; typedef ref_vector<void*> buffs_type; virtual ~rx_streamer() {} virtual size_t get_num_channels() const = 0; virtual size_t get_max_num_samps() const = 0; virtual size_t recv(const buffs_type& buffs, size_t n, rx_metadata_t& md, double timeout = 0.1, bool one_packet = false) = 0; virtual void issue_stream_cmd(const stream_cmd_t& c) = 0; };
struct tx_streamer { typedef std::shared_ptr<tx_streamer> sptr; typedef ref_vector<const void*> buffs_type; virtual ~tx_streamer() {} virtual size_t get_num_channels() const = 0; virtual size_t get_max_num_samps() const = 0; virtual size_t send(const buffs_type& buffs, size_t n, const tx_metadata_t& md, double timeout = 0.1) = 0; virtual bool recv_async_msg(async_metadata_t& md, double timeout = 0.1) = 0; };
struct meta_range_t { double a, b; double start() const { return a; } double stop() const { return b; } }; typedef meta_range_t freq_range_t; typedef meta_range_t gain_range_t;
namespace usrp { struct multi_usrp { typedef std::shared_ptr<multi_usrp> sptr; static sptr make(const std::string& addr);
    size_t get_rx_num_channels(), get_tx_num_channels(); void set_rx_rate(double, size_t), set_tx_rate(double, size_t), set_rx_gain(double, size_t), set_tx_gain(double, size_t), set_rx_bandwidth(double, size_t), set_tx_bandwidth(double, size_t), set_rx_freq(const tune_request_t&, size_t), set_tx_freq(const tune_request_t&, size_t); double get_rx_rate(size_t), get_tx_rate(size_t); freq_range_t get_rx_freq_range(size_t), get_tx_freq_range(size_t); gain_range_t get_rx_gain_range(size_t), get_tx_gain_range(size_t);
    rx_streamer::sptr get_rx_stream(const stream_args_t&); tx_streamer::sptr get_tx_stream(const stream_args_t&); std::string get_mboard_name(), get_pp_string(); time_spec_t get_time_last_pps(); void set_time_next_pps(const time_spec_t&);
    multi_usrp(); ~multi_usrp(); }; }
}
