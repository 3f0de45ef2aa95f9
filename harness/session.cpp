// A library session: reads one operation per line and performs all of them in this one process.
//   C<TAB>arg...                          mainCountDriver
//   V<TAB>arg...                          mainValuationDriver
//   L<TAB>H|V<TAB>cones|vertices<TAB>rows;..<TAB>alg=integrand<TAB>alg=integrand...
//                                         a Polyhedron from a cdd matrix, then valuations on one object
// Each operation's result is one line "=> ..." in the file named by argv[1].
#include <iostream>
#include <fstream>
#include <sstream>
#include <vector>
#include <string>
#include <cstring>
#include "valuation/valuation.h"
#include "count.h"
#include "latte_cddlib.h"

using namespace std;

static vector<string> split(const string &s, char c) {
	vector<string> r;
	string t;
	istringstream in(s);
	while (getline(in, t, c))
		r.push_back(t);
	return r;
}

static void drive_count(const vector<string> &f, ostream &out) {
	vector<char *> argv;
	for (size_t i = 0; i < f.size(); i++)
		argv.push_back(strdup(i ? f[i].c_str() : "session"));
	argv.push_back(0);
	CountAnswerContainer a = mainCountDriver(f.size(), &argv[0]);
	out << "N " << a.numLaticePoints << " E";
	for (size_t i = 0; i < a.ehrhart_coefficients.size(); i++)
		out << " " << a.ehrhart_coefficients[i];
	out << " S";
	for (long i = 0; i < a.seriesExpansion.length(); i++)
		out << " " << a.seriesExpansion[i];
}

static void drive_valuation(const vector<string> &f, ostream &out) {
	vector<const char *> argv;
	for (size_t i = 0; i < f.size(); i++)
		argv.push_back(strdup(i ? f[i].c_str() : "session"));
	argv.push_back(0);
	Valuation::ValuationContainer a = Valuation::mainValuationDriver(&argv[0], f.size());
	out << "A";
	for (size_t i = 0; i < a.answers.size(); i++)
		if (a.answers[i].valuationType != PolytopeValuation::entireValuation)
			out << " " << a.answers[i].answer;
}

static void library(const vector<string> &f, ostream &out) {
	vector<string> rows = split(f[3], ';');
	int d = split(rows[0], ' ').size();
	dd_MatrixPtr M = dd_CreateMatrix(rows.size(), d);
	M->representation = f[1] == "H" ? dd_Inequality : dd_Generator;
	for (size_t i = 0; i < rows.size(); i++) {
		vector<string> e = split(rows[i], ' ');
		for (int j = 0; j < d; j++)
			dd_set(M->matrix[i][j], mpq_class(e[j]).get_mpq_t());
	}
	BarvinokParameters params;
	ReadPolyhedronData data;
	data.parse_option("--redundancy-check=full-cddlib");
	Polyhedron *poly = data.read_polyhedron(M, &params,
			f[2] == "cones" ? ReadPolyhedronData::computePrimalCones : ReadPolyhedronData::computeVertices);
	{
		PolytopeValuation v(poly, params);
		out << "A";
		for (size_t i = 4; i < f.size(); i++) {
			string alg = f[i].substr(0, 2), arg = f[i].size() > 3 ? f[i].substr(3) : "";
			if (alg == "vc")
				out << " " << v.findVolume(PolytopeValuation::volumeCone);
			else if (alg == "vt")
				out << " " << v.findVolume(PolytopeValuation::volumeTriangulation);
			else if (alg == "pc" || alg == "pt") {
				monomialSum p;
				loadMonomials(p, arg);
				out << " " << v.findIntegral(p, alg == "pc" ? PolytopeValuation::integratePolynomialAsLinearFormCone
						: PolytopeValuation::integratePolynomialAsLinearFormTriangulation);
				destroyMonomials(p);
			} else {
				linFormSum p;
				loadLinForms(p, arg);
				out << " " << v.findIntegral(p, alg == "lc" ? PolytopeValuation::integrateLinearFormCone
						: PolytopeValuation::integrateLinearFormTriangulation);
				destroyLinForms(p);
			}
		}
	}
	delete poly;
}

int main(int, char **argv) {
	ofstream out(argv[1]);
	string line;
	while (getline(cin, line)) {
		vector<string> f = split(line, '\t');
		ostringstream o;
		try {
			if (f[0] == "C")
				drive_count(f, o);
			else if (f[0] == "V")
				drive_valuation(f, o);
			else
				library(f, o);
		} catch (LattException &e) {
			o.str("");
			o << "refused";
		}
		out << "=> " << o.str() << endl;
	}
	return 0;
}
