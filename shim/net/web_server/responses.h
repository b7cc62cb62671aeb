#pragma once
#include <string_view>
#include "net/web_server/web_server.h"
namespace net {
inline web_server::string_res_t shim_response(web_server::http_req_t const& req, boost::beast::http::status s,
                                              std::string_view content) {
  web_server::string_res_t res{s, req.version()};
  res.set(boost::beast::http::field::content_type, "text/html");
  res.keep_alive(req.keep_alive());
  res.body() = std::string{content};
  res.prepare_payload();
  return res;
}
inline web_server::string_res_t not_found_response(web_server::http_req_t const& req, std::string_view c = "Not found") {
  return shim_response(req, boost::beast::http::status::not_found, c);
}
inline web_server::string_res_t bad_request_response(web_server::http_req_t const& req, std::string_view c = "Bad request") {
  return shim_response(req, boost::beast::http::status::bad_request, c);
}
}  // namespace net
