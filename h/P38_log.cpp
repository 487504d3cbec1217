// P38: log statements, targets, disabling and groups in any order: what each target and the log file receives
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER)
#include "common.h"
#include <tpie/tpie_log.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/tempname.h>
#include <memory>
using namespace tpie;
#ifndef OPS
#define OPS 3
#endif
struct Target : log_target { // what it is given, as one text: level, text; groups as markers
	std::string got; std::vector<int> levels; bool sane = true; std::vector<std::string> groups; size_t left = 0;
	void log(log_level l, const char *m, size_t n) override { if (!n) return; if (levels.empty() || levels.back() != (int)l || !got.size() || got.back() == '\n') levels.push_back((int)l); got.append(m, n); }
	void begin_group(const std::string &n) override { groups.push_back(n); }
	void end_group() override { sane &= left < groups.size(); ++left; } };
static const log_level LV[3] = {LOG_ERROR, LOG_INFORMATIONAL, LOG_DEBUG};
static bool same(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool ok = true; for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i]; return ok; }
struct Expect { std::string text; std::vector<int> levels; size_t in = 0, out = 0; };
void harness() {
	Tpie lib; tempname::tpie_name("warm"); log_bits::log_instances.clear(); // the search for a directory is logged once
	{
		Target t[2]; Expect e[2]; bool on[2] = {true, false}; add_log_target(&t[0]);
		std::unique_ptr<file_log_target> file; std::string want; size_t open = 0; // groups opened while the file is attached
		int threshold = sx_choice("threshold", 3);
		std::vector<std::unique_ptr<log_group>> groups; std::vector<int> seen; // per group: which of the targets saw it begin
		std::vector<std::unique_ptr<scoped_log_enabler>> en; std::vector<bool> state{true};
		auto deliver = [&](int l, const std::string &s) { if (!state.back()) return;
			for (int i = 0; i < 2; i++) if (on[i]) e[i].text += s, e[i].levels.push_back((int)LV[l]);
			if (file && LV[l] <= LV[threshold]) want += LV[l] >= LOG_DEBUG ? std::string(open, '|') + " " + s : s; };
		for (int o = 0; o < OPS; o++) {
#ifdef NESTING
		static const int ops[] = {0, 5, 6, 7, 8}; int op = ops[sx_choice("op", 5)];
#else
		int op = sx_choice("op", 8);
#endif
		switch (op) {
		case 0: { int l = sx_choice("level", 3); uint8_t c = sx_val<uint8_t>("char"); int v = sx_val<uint8_t>("number", 0, 9); std::string s = std::string("m") + (char)c + std::to_string(v) + "\n"; get_log_by_level(LV[l]) << 'm' << (char)c << v << std::endl; deliver(l, s); break; }
		case 1: { static const int lens[] = {2045, 2046, 2047, 4100}; size_t n = lens[sx_choice("length", 4)]; int l = o & 1;  std::string s(n, 'a' + o); s[n / 2] = 'X'; s += "\n"; // written in parts
			logstream &g = get_log_by_level(LV[l]); if (sx_choice("parts", 2)) { g << s.substr(0, 9); g << s.substr(9); } else g << s; g.flush(); deliver(l, s); break; }
		case 2: { int i = sx_choice("target", 2); if (!on[i]) { add_log_target(&t[i]); on[i] = true; } break; }
		case 3: { int i = sx_choice("target", 2); bool pending = sx_choice("pending", 2); if (!on[1 - i] && !file) break; // text that is still buffered is given to the target before it is removed
			std::string s = "p" + std::to_string(o) + "\n"; if (pending && on[i]) { log_error() << s; deliver(0, s); } else if (!on[i]) { remove_log_target(&t[i]); break; }
			remove_log_target(&t[i]); on[i] = false; break; }
		case 4: if (en.size() && sx_choice("restore", 2)) { en.pop_back(); state.pop_back(); } else { bool b = sx_choice("enable", 2); en.emplace_back(new scoped_log_enabler(b)); state.push_back(b); } break;
		case 5: { if (!state.back()) break; std::string name = "g" + std::to_string(o); groups.emplace_back(new log_group(name)); int s = 0; for (int i = 0; i < 2; i++) if (on[i]) e[i].in++, s |= 1 << i; if (file) { s |= 4; if (threshold == 2) { want += std::string(open, '|') + "> Entering " + name + "\n"; open++; } } seen.push_back(s); break; }
		case 6: { if (!state.back() || groups.empty()) break; int s = seen.back(); bool skip = false; for (int i = 0; i < 2; i++) if (on[i] && !(s >> i & 1)) skip = true; if (skip) break; // (a target's own matter)
			if (file && (s & 4) && threshold == 2) { open--; want += std::string(open, '|') + "x Leaving g"; want += groups.back() ? "" : ""; }
			bool named = file && (s & 4) && threshold == 2; groups.pop_back(); seen.pop_back(); for (int i = 0; i < 2; i++) if (on[i]) e[i].out++;
			if (named) want += std::string(1, '?') + "\n"; break; }
		case 8: { if (!state.back()) break; progress_indicator_null pi; progress_indicator_subindicator s(&pi, 10, "c"); s.init(5); s.step(); s.done(); // its work is one group
			for (int i = 0; i < 2; i++) if (on[i]) e[i].in++, e[i].out++; if (file && threshold == 2) want += std::string(open, '|') + "> Entering c\n" + std::string(open, '|') + "x Leaving c\n"; break; }
		case 7: if (!file) { file.reset(new file_log_target(LV[threshold])); add_log_target(file.get()); } else { char b[3] = {'d', (char)('0' + o), '\n'}; log_to_targets(LOG_ERROR, b, 3); deliver(0, std::string(b, 3)); } break;
		} }
		for (int i = 0; i < 2; i++) { bool ok = same(t[i].got, e[i].text); SX_ASSERT(ok, "a target is given exactly what is logged while it is attached and logging is enabled, in order"); SX_ASSERT(t[i].levels == e[i].levels, "with the level it is logged at"); SX_ASSERT(t[i].sane && t[i].groups.size() == e[i].in && t[i].left == e[i].out, "groups are entered and left"); }
		while (groups.size()) { groups.pop_back(); int s = seen.back(); seen.pop_back(); if (file && (s & 4) && threshold == 2) { open--; want += std::string(open, '|') + "x Leaving g?\n"; } }
		en.clear(); state.resize(1);
		if (file) { file->m_out.flush(); size_t n = sx_file_size(file->m_path.c_str()); SX_ASSERT(n == want.size(), "the file holds what was logged: size"); bool ok = true; for (size_t i = 0; i < n && i < want.size(); i++) ok &= (want[i] == '?') | (sx_file_byte(file->m_path.c_str(), i) == (uint8_t)want[i]); SX_ASSERT(ok, "the file holds what was logged up to its level"); sx_cover("file"); remove_log_target(file.get()); std::string p = file->m_path; file.reset(); remove(p.c_str()); }
		for (int i = 0; i < 2; i++) if (on[i]) remove_log_target(&t[i]);
		log_bits::log_instances.clear();
	}
	sx_cover("end");
}
