// Drives the library the way an input file describes and prints every state; the reference of the application checks.
// driver FILE MAXSTEPS UNTIL: FILE holds the parameters and the particles as hexadecimal numbers
#include "sut.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>

int main(int argc, char** argv)
{
	if(argc < 4) return 2;
	std::ifstream in(argv[1]);
	const auto number = [&in]() { std::string t; in >> t; return std::strtod(t.c_str(), nullptr); };
	Params q;
	q.maxDt = number(); q.courant = number(); q.g = number(); q.rho = number(); q.nu = number(); q.surfaceRatio = number(); q.ratio = number(); q.c = number();
	q.l0 = number(); q.eps = number();
	for(int a = 0; a < V_DIM; a++) q.minX[a] = number();
	for(int a = 0; a < V_DIM; a++) q.maxX[a] = number();
	State s(static_cast<std::size_t>(number()));
	for(auto& p : s)
	{
		p.type = static_cast<int>(number());
		for(int a = 0; a < V_DIM; a++) p.x[a] = number();
		for(int a = 0; a < V_DIM; a++) p.u[a] = number();
		p.p = number(); p.n = number();
	}
	const long maxSteps = std::strtol(argv[2], nullptr, 10);
	const double until = std::strtod(argv[3], nullptr);
	const State first = s;
	try
	{
		sut::Sim sim(q, [&first](std::size_t i, double, double) { return first[i].x; });
		sim.add(s);
		const auto print = [&sim]()
		{
			std::printf("S %a\n", sim.t());
			for(auto& p : sim.state())
			{
				std::printf("%d", p.type);
				for(int a = 0; a < V_DIM; a++) std::printf(" %a", p.x[a]);
				for(int a = 0; a < V_DIM; a++) std::printf(" %a", p.u[a]);
				std::printf(" %a %a\n", p.p, p.n);
			}
		};
		print();
		for(long k = 0; k < maxSteps && sim.t() < until; k++) { sim.step(); print(); }
		std::printf(sim.t() < until ? "CUT\n" : "END\n");
	}
	catch(const std::runtime_error& e) { std::printf("ERROR %s\n", e.what()); }
	return 0;
}
