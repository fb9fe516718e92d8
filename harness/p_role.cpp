// runs the code under test as a real process in a role; the script comes from VF_SCRIPT, every
// operation is logged to VF_LOG (unbuffered) before and after it is carried out.
#include <bits/stdc++.h>
#include <fcntl.h>
#include <unistd.h>
#include "validate.h"
#include "common.h"
static int lg = -1;
static void put(const std::string& s) { if (write(lg, s.data(), s.size()) < 0) _exit(99); }
static std::string unhex(const std::string& h) { std::string r; if (h == "-") return r; for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16); return r; }
static std::string jb(const std::string& s) { std::string r = "["; for (unsigned char c : s) { if (r.size() > 1) r += ','; r += std::to_string((int)c); } return r + "]"; }
static std::string num(long double x) {
	std::uint64_t m = 0; int k = 0; std::string c = std::isnan(x) ? "nan" : std::isinf(x) ? "inf" : "fin";
	if (std::isfinite(x) and x != 0) { int e; long double f = std::frexp(std::fabs(x), &e); m = (std::uint64_t)std::ldexp(f, 64); k = e - 64; while (m % 2 == 0) { m /= 2; k++; } }
	return "{\"c\":\"" + c + "\",\"neg\":" + (std::signbit(x) ? "true" : "false") + ",\"m\":" + jb(std::to_string(m)) + ",\"k\":" + std::to_string(k) + "}"; }
static InputStream& in(const std::string& n) {
	if (n == "testIn") { std::string r = std::getenv("VF_ROLE"); return r == "input" ? InputValidator::testIn : r == "answer" ? AnswerValidator::testIn : r == "output" ? OutputValidator::testIn : Interactor::testIn; }
	if (n == "ans") return AnswerValidator::ans;
	if (n == "juryAns") return OutputValidator::juryAns;
	if (n == "teamAns") return OutputValidator::teamAns;
	if (n == "fromTeam") return Interactor::fromTeam;
	if (n == "prevstate") return Multipass::prevstate;
	_exit(98); }
static OutputStream& out(const std::string& n) {
	std::string r = std::getenv("VF_ROLE");
	if (n == "juryOut") return ValidateBase::juryOut;
	if (n == "juryErr") return ValidateBase::juryErr;
	if (n == "teamOut") return r == "output" ? OutputValidator::teamOut : Interactor::teamOut;
	if (n == "toTeam") return Interactor::toTeam;
	if (n == "testOut") return Generator::testOut;
	if (n == "nextstate") return Multipass::nextstate;
	if (n == "nextpass") return Multipass::nextpass;
	_exit(98); }
int main(int argc, char** argv) {
	lg = open(std::getenv("VF_LOG"), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	std::ifstream sc(std::getenv("VF_SCRIPT")); std::string role = std::getenv("VF_ROLE"); int idx = 0; bool inited = false;
	for (std::string line; std::getline(sc, line); idx++) {
		std::istringstream x(line); std::vector<std::string> w; for (std::string t; x >> t;) w.push_back(t);
		put("S " + std::to_string(idx) + "\n");
		std::string res = "[]"; bool refused = false;
		try {
			if (w[0] == "init") { if (role == "input") InputValidator::init(argc, argv); else if (role == "answer") AnswerValidator::init(argc, argv); else if (role == "output") OutputValidator::init(argc, argv); else if (role == "interactor") Interactor::init(argc, argv); else Generator::init(argc, argv); }
			else if (w[0] == "mpinit") { Multipass::init(); res = std::to_string(Multipass::pass); }
			else if (w[0] == "set") { using namespace ValidateBase; if (w[1] == "abs") floatAbsTol = std::strtold(w[2].c_str(), nullptr); else if (w[1] == "rel") floatRelTol = std::strtold(w[2].c_str(), nullptr); else if (w[1] == "space") spaceSensitive = w[2] == "1"; else caseSensitive = w[2] == "1"; }
			else if (w[0] == "settings") { using namespace ValidateBase; res = "{\"abs\":" + num(floatAbsTol) + ",\"rel\":" + num(floatRelTol) + ",\"space\":" + (spaceSensitive ? "true" : "false") + ",\"cs\":" + (caseSensitive ? "true" : "false") + "}"; }
			else if (w[0] == "r") { InputStream& s = in(w[1]); const std::string& o = w[2];
				if (o == "tok") res = jb(s.string()); else if (o == "sp") s.space(); else if (o == "nl") s.newline(); else if (o == "eof") s.eof(); else if (o == "neof") s.noteof();
				else if (o == "int") res = jb(std::to_string(s.integer())); else if (o == "xs") s.expectString(unhex(w[3])); else if (o == "xr") s.expectReal(std::strtold(w[3].c_str(), nullptr));
				else if (o == "sl") res = jb(s.string((Integer)std::stoll(w[3]), (Integer)std::stoll(w[4])));
				else if (o == "pat") { static const std::regex word("[a-c0-9]+"); res = jb(s.string(word)); }
				else if (o == "rs") s.realStrict(std::strtold(w[3].c_str(), nullptr), std::strtold(w[4].c_str(), nullptr), 0, 3);
				else if (o == "ints") { res = "["; for (auto v : s.integers(-9, 100, std::stoll(w[3]))) res += (res.size() > 1 ? "," : "") + jb(std::to_string(v)); res += "]"; }
				else if (o == "ib") res = jb(std::to_string(s.integer(std::stoll(w[3]), std::stoll(w[4])))); }
			else if (w[0] == "w") out(w[1]) << unhex(w[2]);
			else if (w[0] == "wf") { out(w[1]) << unhex(w[2]) << std::flush; }
			else if (w[0] == "v") { using namespace Verdicts; if (w[1] == "AC") ValidateBase::juryOut << AC; else if (w[1] == "WA") ValidateBase::juryOut << WA; else if (w[1] == "PE") ValidateBase::juryOut << PE; else ValidateBase::juryOut << FAIL; }
			else if (w[0] == "vt") { using namespace Verdicts; OutputStream& o = out("teamOut"); if (w[1] == "AC") o << AC; else o << WA; }
			else if (w[0] == "ve") { using namespace Verdicts; if (w[1] == "AC") AC.exit(); else if (w[1] == "WA") WA.exit(); else FAIL.exit(); }
			else if (w[0] == "con") ConstraintsBase::constraint[w[1]].log(std::stoll(w[2]), std::stoll(w[3]), (Integer)std::stoll(w[4]));
			else if (w[0] == "feq") res = ValidateBase::floatEqual(std::strtold(w[1].c_str(), nullptr), std::strtold(w[2].c_str(), nullptr)) ? "true" : "false";
			else if (w[0] == "fle") res = ValidateBase::floatLess(std::strtold(w[1].c_str(), nullptr), std::strtold(w[2].c_str(), nullptr)) ? "true" : "false";
			else if (w[0] == "fge") res = ValidateBase::floatGreater(std::strtold(w[1].c_str(), nullptr), std::strtold(w[2].c_str(), nullptr)) ? "true" : "false";
			else if (w[0] == "seq") res = ValidateBase::stringEqual(unhex(w[1]), unhex(w[2])) ? "true" : "false";
			else if (w[0] == "rx") res = std::regex_match(unhex(w[2]), w[3] == "default" ? ValidateBase::caseSensitive.regex(w[1]) : ValidateBase::caseSensitive.regex(w[1], w[3] == "basic" ? std::regex::basic : w[3] == "extended" ? std::regex::extended : std::regex::ECMAScript)) ? "true" : "false";
			else if (w[0] == "rand") { res = "["; for (int i = 0; i < 3; i++) res += (i ? "," : "") + jb(std::to_string((Integer)Random::integer())); res += "]"; }
			else if (w[0] == "NEXT") Multipass::NEXT();
			else if (w[0] == "NEXTs") ValidateBase::juryOut << static_cast<std::ostream& (*)(std::ostream&)>(Multipass::NEXT);
			else if (w[0] == "ret") { put("D " + std::to_string(idx) + " 0 []\n"); return std::stoi(w[1]); }
			else _exit(97);
		} catch (const std::exception& e) { refused = true; res = "[]"; if (w[0] == "init" and !inited) { put("D " + std::to_string(idx) + " 1 []\n"); _exit(70); } }
		if (w[0] == "init") inited = true;
		put("D " + std::to_string(idx) + " " + (refused ? "1" : "0") + " " + res + "\n");
	}
	return 0;
}
