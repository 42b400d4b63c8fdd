// A strict reader of the files that traces are written to.
#ifndef VERIF_TRACE_JSON_H
#define VERIF_TRACE_JSON_H

#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace tj {

struct event {
  std::string name, cat, ph;
  long pid = -1, tid = -1, ts = -1, tts = 0;
  int fields = 0;
};

struct reader {
  const char* p;
  const char* end;
  std::string error;

  bool fail(const char* what) {
    if (error.empty()) error = what;
    return false;
  }
  void space() {
    while (p < end && (*p == ' ' || *p == '\n' || *p == '\r' || *p == '\t')) ++p;
  }
  bool expect(char c) {
    space();
    if (p == end || *p != c) return fail("unexpected character");
    ++p;
    return true;
  }
  bool string(std::string& s) {
    if (!expect('"')) return false;
    s.clear();
    while (p < end && *p != '"') {
      if ((unsigned char)*p < 0x20) return fail("control character in a string");
      if (*p == '\\') {
        if (++p == end) break;
        switch (*p) {
        case '"':
        case '\\':
        case '/': s += *p++; break;
        case 'b': s += '\b', ++p; break;
        case 'f': s += '\f', ++p; break;
        case 'n': s += '\n', ++p; break;
        case 'r': s += '\r', ++p; break;
        case 't': s += '\t', ++p; break;
        case 'u': {
          if (end - p < 5) return fail("short escape");
          unsigned v = 0;
          for (int i = 1; i <= 4; ++i) {
            if (!isxdigit((unsigned char)p[i])) return fail("bad escape");
            v = v * 16 + (unsigned)strtol(std::string(1, p[i]).c_str(), nullptr, 16);
          }
          p += 5;
          if (v < 0x80) s += (char)v;
          else if (v < 0x800) s += (char)(0xc0 | v >> 6), s += (char)(0x80 | (v & 63));
          else s += (char)(0xe0 | v >> 12), s += (char)(0x80 | (v >> 6 & 63)), s += (char)(0x80 | (v & 63));
          break;
        }
        default: return fail("unknown escape");
        }
      } else {
        s += *p++;
      }
    }
    if (p == end) return fail("string does not end");
    ++p;
    return true;
  }
  bool number(long& v) {
    space();
    const char* b = p;
    if (p < end && *p == '-') ++p;
    if (p == end || *p < '0' || *p > '9') return fail("number expected");
    if (*p == '0' && p + 1 < end && p[1] >= '0' && p[1] <= '9') return fail("leading zero");
    while (p < end && *p >= '0' && *p <= '9') ++p;
    v = strtol(std::string(b, p).c_str(), nullptr, 10);
    return true;
  }
  bool object(event& e) {
    if (!expect('{')) return false;
    space();
    if (p < end && *p == '}') return ++p, true;
    for (;;) {
      std::string key;
      if (!string(key) || !expect(':')) return false;
      ++e.fields;
      bool ok = key == "name" ? string(e.name) : key == "cat" ? string(e.cat) : key == "ph" ? string(e.ph) : key == "pid" ? number(e.pid) :
                key == "tid" ? number(e.tid) : key == "ts" ? number(e.ts) : key == "tts" ? number(e.tts) : fail("unknown field");
      if (!ok) return false;
      space();
      if (p < end && *p == ',') ++p;
      else return expect('}');
    }
  }
  bool array(std::vector<event>& v) {
    if (!expect('[')) return false;
    for (;;) {
      v.emplace_back();
      if (!object(v.back())) return false;
      space();
      if (p < end && *p == ',') ++p;
      else break;
    }
    if (!expect(']')) return false;
    space();
    return p == end || fail("something follows the end");
  }
};

// Returns an empty string or what is wrong.
inline std::string parse(const std::string& s, std::vector<event>& events) {
  reader r{s.data(), s.data() + s.size(), {}};
  if (!r.array(events)) return "not valid JSON: " + r.error;
  if (events.size() < 2 || events[0].name != "chrome_trace" || events[0].ph != "B" || events[1].name != "chrome_trace" || events[1].ph != "E")
    return "the first events are not those of the trace itself";
  events.erase(events.begin(), events.begin() + 2);
  for (const event& e : events)
    if (e.fields != 7 || e.cat != "slinky" || (e.ph != "B" && e.ph != "E") || e.pid != 0 || e.tid < 0 || e.ts < 0) return "an event is not complete";
  return "";
}

// Every begin is matched by an end of the same thread and name, properly nested; times do not decrease.
inline std::string balanced(const std::vector<event>& events) {
  std::map<long, std::vector<std::string>> open;
  std::map<long, long> time;
  for (const event& e : events) {
    auto& o = open[e.tid];
    if (e.ts < time[e.tid]) return "times of a thread decrease";
    time[e.tid] = e.ts;
    if (e.ph == "B") {
      o.push_back(e.name);
    } else {
      if (o.empty() || o.back() != e.name) return "an end does not match the last begin of its thread";
      o.pop_back();
    }
  }
  for (auto& i : open)
    if (!i.second.empty()) return "a begin is not matched by an end";
  return "";
}

}  // namespace tj

#endif
