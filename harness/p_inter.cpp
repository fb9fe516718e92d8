// an interactor program: number guessing with at most ten guesses
#include <bits/stdc++.h>
#include "validate.h"
using namespace Interactor;
int main(int argc, char** argv) {
	Interactor::init(argc, argv); Integer x = testIn.integer(1, 1001); bool lazy = arguments["--lazy"].exists();
	for (int i = 0; i < 10; i++) { Integer g = fromTeam.integer(1, 1001); if (g == x) { toTeam << "correct" << std::endl; fromTeam.newline(); fromTeam.eof(); teamOut << "found" << AC; } std::string_view r = g < x ? "higher" : "lower"; if (lazy) { toTeam << r; toTeam << NEWLINE << std::flush; } else toTeam << r << std::endl; }
	juryOut << "too many guesses" << WA;
}
