// Reads one JSON request per line, writes one JSON answer per line.  What the
// code under test prints goes nowhere.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <nlohmann/json.hpp>
#include <string>
#include <unistd.h>

namespace verif {
  using json = nlohmann::json;

  inline int serve(std::function<json(json const &)> const &handle) {
    int out = dup(1);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    std::string line;
    while (std::getline(std::cin, line)) {
      json answer;
      try {
        answer = handle(json::parse(line));
      } catch (std::exception const &e) {
        answer = {{"error", std::string(e.what()).substr(0, 600)}};
      }
      std::string s
          = answer.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
      size_t done = 0;
      while (done < s.size()) {
        ssize_t n = write(out, s.data() + done, s.size() - done);
        if (n <= 0) {
          return 1;
        }
        done += static_cast<size_t>(n);
      }
    }
    return 0;
  }
} // namespace verif
