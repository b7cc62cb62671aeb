#pragma once
#include <regex>
#include <string>
#include <vector>
#include "net/web_server/responses.h"
#include "net/web_server/web_server.h"
namespace net {
struct query_router {
  struct route_request : public web_server::http_req_t {
    explicit route_request(web_server::http_req_t r) : web_server::http_req_t(std::move(r)) {}
    std::vector<std::string> path_params_;
  };
  using route_handler = std::function<void(route_request const&, web_server::http_res_cb_t const&, bool)>;
  void route(std::string method, std::string const& pattern, route_handler h) {
    routes_.push_back({std::move(method), std::regex{pattern}, std::move(h)});
  }
  void reply_hook(std::function<void(web_server::http_res_t const&)> h) { hook_ = std::move(h); }
  void operator()(web_server::http_req_t const& req, web_server::http_res_cb_t const& cb, bool ssl) {
    std::string const target{req.target().data(), req.target().size()};
    for (auto const& r : routes_) {
      std::smatch m;
      if (r.method_ != std::string{req.method_string()} || !std::regex_match(target, m, r.pattern_)) continue;
      route_request rr{req};
      for (std::size_t i = 1; i < m.size(); ++i) rr.path_params_.push_back(m[i].str());
      r.handler_(rr, [&](web_server::http_res_t&& res) {
        if (hook_) hook_(res);
        cb(std::move(res));
      }, ssl);
      return;
    }
    cb(not_found_response(req));
  }
  struct entry {
    std::string method_;
    std::regex pattern_;
    route_handler handler_;
  };
  std::vector<entry> routes_;
  std::function<void(web_server::http_res_t const&)> hook_;
};
}  // namespace net
