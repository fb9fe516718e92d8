// InputStream whitespace protocol: replays scripts of reads
// args: <strict|lenient> <stim file>; stim line: "<bytes as comma list>|<ops separated by ,>"
#include "vh.h"
using namespace vf;
static u64 nCases = 0;
static void runCase(bool strict, const std::string& input, const std::vector<std::string>& ops, int how, bool sens = false) {
	static const int codes[] = {43, 1, 42, 7};
	int code = codes[nCases++ % 4];
	std::istringstream ss(input);
	std::ostringstream sink;
	OutputStream out(sink);
	std::unique_ptr<InputStream> in;
	std::string path;
	Ev("new").b("strict", strict).i("onFail", code).i("how", how).bytes("input", input);
	bool caseS = sens or nCases % 3 != 0; // inputs use lower case letters only where case is folded
	if (how == 0) in = std::make_unique<InputStream>(ss, strict, caseS, out, Verdicts::Verdict(code));
	else {
		path = "in.txt"; { std::ofstream f(path, std::ios::binary); f << input; }
		in = std::make_unique<InputStream>(std::filesystem::path(path), strict, caseS, out, Verdicts::Verdict(code));
	}
	if (how == 2) { InputStream moved(std::move(*in)); *in = InputStream(); *in = std::move(moved); }
	for (const auto& op : ops) {
		std::string res;
		int c = outcome([&]{
			if (op == "tok") res = in->string();
			else if (op == "sp") in->space();
			else if (op == "nl") in->newline();
			else if (op == "eof") in->eof();
			else if (op == "neof") in->noteof();
		});
		i64 rem = how == 0 ? (i64)ss.rdbuf()->in_avail() : -1;
		if (rem < 0 and how == 0) rem = 0;
		Ev e(op.c_str()); e.i("code", c);
		if (op == "tok") e.bytes("res", res);
		if (how == 0) e.i("rem", rem);
		else e.i("rem", -1);
		if (c != 0) break;
	}
}
int main(int argc, char** argv) {
	char* a[] = {argv[0], nullptr}; initGenerator(1, a);
	bool strict = std::string(argv[1]) == "strict";
	std::ifstream f(argv[2]);
	std::string line;
	while (std::getline(f, line)) {
		auto bar = line.find('|');
		std::string input; std::vector<std::string> ops;
		std::stringstream x(line.substr(0, bar)), y(line.substr(bar + 1));
		for (std::string t; std::getline(x, t, ',');) input += (char)std::stoi(t);
		for (std::string t; std::getline(y, t, ',');) ops.push_back(t);
		runCase(strict, input, ops, 0);
	}
	// every byte value at the position of every kind of read, alone and next to the separators
	for (int b = 0; b < 256; b++) for (const char* op : {"tok", "sp", "nl", "eof", "neof"}) {
		std::string c(1, (char)b);
		for (const std::string& i : {c, c + "\n", c + " x", "\n" + c, " " + c, "a" + c, c + c}) runCase(strict, i, {op, "tok", "eof"}, 0, true);
		runCase(strict, "a" + c + "b", {"tok", op, "tok", "eof"}, 0, true); runCase(strict, "a" + c + "\n", {"tok", op, "eof"}, 0, true); runCase(strict, "a\n" + c, {"tok", "nl", op, "eof"}, 0, true);
	}
	// random: longer inputs, all byte values, scripts biased to fit
	Rng r(envSeed());
	int n = thorough() ? 60000 : 6000;
	for (int k = 0; k < n; k++) {
		int how = k % 10 == 0 ? 1 : k % 10 == 1 ? 2 : 0;
		std::string input; std::vector<std::string> ops;
		int m = (int)r.in(0, 9);
		const std::string ws = strict ? "  \n\n\t\r" : " \n\t\r\v\f";
		auto token = [&]{ std::string t; int len = (int)(r.in(0, 12) == 0 ? r.in(20, 300) : r.in(1, 6));
			for (int i = 0; i < len; i++) { int z = (int)r.in(0, 20);
				if (z == 0) t += (char)r.in(128, 256); else if (z == 1 and r.in(0, 3) == 0) t += (char)r.in(0, 9);
				else if (z == 2) t += (char)r.in(33, 65); else t += (char)r.in('a', 'z' + 1); }
			return t; };
		if (r.in(0, strict ? 15 : 2) == 0) input += r.pick(ws);
		for (int i = 0; i < m; i++) {
			input += token(); ops.push_back("tok");
			int seps = strict ? (r.in(0, 12) == 0 ? (int)r.in(0, 3) : 1) : (int)r.in(1, 4);
			if (i + 1 == m and r.in(0, 2)) seps = 0;
			for (int s = 0; s < seps; s++) {
				char c = strict ? (r.in(0, 15) == 0 ? r.pick(ws) : (r.in(0, 3) ? ' ' : '\n')) : r.pick(ws);
				input += c; if (strict and r.in(0, 40) == 0) { if (r.in(0, 2)) input.insert(input.size() - 1, 1, r.pick(std::string("\r \t"))); else input += r.pick(std::string("\r\n ")); }
				if (r.in(0, 30) == 0) continue;
				ops.push_back(c == '\n' ? "nl" : "sp");
			}
			if (r.in(0, 8) == 0) ops.push_back("neof");
			if (r.in(0, 25) == 0) ops.push_back("eof");
		}
		ops.push_back(r.in(0, 5) ? "eof" : "neof");
		if (r.in(0, 3) == 0) ops.push_back("tok");
		if (r.in(0, 6) == 0) std::swap(ops[r.next() % ops.size()], ops[r.next() % ops.size()]);
		if (r.in(0, 10) == 0) input.resize(r.next() % (input.size() + 1));
		if (strict and how != 0) how = 0;
		runCase(strict, input, ops, how);
	}
	return 0;
}
