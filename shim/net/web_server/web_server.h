#pragma once
// stands in for the http library: requests are handed over by the test
#include <functional>
#include <string>
#include <utility>
#include <variant>
#include "boost/asio/io_context.hpp"
#include "boost/beast/http.hpp"
#include "boost/beast/version.hpp"
namespace net {
struct web_server {
  using http_req_t = boost::beast::http::request<boost::beast::http::string_body>;
  using string_res_t = boost::beast::http::response<boost::beast::http::string_body>;
  using empty_res_t = boost::beast::http::response<boost::beast::http::empty_body>;
  using http_res_t = std::variant<string_res_t, empty_res_t>;
  using http_res_cb_t = std::function<void(http_res_t&&)>;
  using http_req_cb_t = std::function<void(http_req_t, http_res_cb_t const&, bool)>;
  explicit web_server(boost::asio::io_context&) {}
  void on_http_request(http_req_cb_t cb) { cb_ = std::move(cb); }
  void init(std::string const&, std::string const&, boost::system::error_code&) {}
  void run() const { if (session()) session()(cb_); }
  void stop() {}
  // what the outside world asks while the server runs
  static std::function<void(http_req_cb_t const&)>& session() {
    static std::function<void(http_req_cb_t const&)> s;
    return s;
  }
  http_req_cb_t cb_;
};
}  // namespace net
// the cereal in use upstream writes string views
namespace cereal {
class JSONOutputArchive;
template <typename S>
  requires(std::is_same_v<S, std::string_view>)
std::string save_minimal(JSONOutputArchive const&, S const& s) { return std::string{s}; }
}  // namespace cereal
