From 041a8d16345cefe21c6a8d37420ca1fbaf05a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 01/36] fix: option '+' added a nonnegativity row beyond the
 last variable and crashed

---
 code/latte/ReadLatteStyle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 9a069e3..a76cf41 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -161,9 +161,11 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		}
 	}
 	if (nonnegativity) {
-		vector<int> nonnegatives(numOfVars);
+		/* The first column is the right-hand side. */
+		int num_variables = numOfVars - 1;
+		vector<int> nonnegatives(num_variables);
 		int k;
-		for (k = 0; k < numOfVars; k++)
+		for (k = 0; k < num_variables; k++)
 			nonnegatives[k] = k + 1; /* 1-based indices */
 		dd_MatrixPtr new_matrix = add_nonnegativity(matrix, nonnegatives,
 				num_homog);
-- 
2.43.0


From a851cf01c47f5ac36f8cb8217d09fc6163604e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 02/36] fix: keyword 'nonnegative' before 'linearity' made the
 emptiness check fail

---
 code/latte/CheckEmpty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 91fecc7..d7295c7 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -86,7 +86,7 @@ void CheckEmpty(const char * Filename){
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(nonneg[0] == 'y') hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
-- 
2.43.0


From 67c6b560313102794ba44147bd06d6ecf0c4f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 03/36] fix: dilate equations before solving them (count
 --dilation with equations)

---
 code/latte/ReadPolyhedron.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 78ce1ac..9e062ad 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -767,8 +767,12 @@ listVector * ReadPolyhedronData::projectOutVariables(dd_MatrixPtr &M, int &numOf
 	if (equationsPresent[0] == 'y') {
 		{
 			vec_ZZ *generators = NULL;
+			/* Dilate the whole system first: The dilated equations can have
+			   integer solutions even if the original ones have none. */
+			dilateListVector(equations, numOfVars, dilation_const);
+			dilateListVector(inequalities, numOfVars, dilation_const);
 			matrixTmp = preprocessProblem(equations, inequalities, &generators,
-					&numOfVars, cost, ProjU, interior, dilation_const);
+					&numOfVars, cost, ProjU, interior, 1);
 			if (generators)
 				delete[] generators;
 		}
-- 
2.43.0


From 1d2bc446c4bc85fbe6613aa3dc101d41719c264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 04/36] fix: refuse --dilation for CDD-style V-representations
 instead of ignoring it

---
 code/latte/ReadPolyhedron.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 9e062ad..dbd997f 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -654,6 +654,10 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 
 	switch (M->representation) {
 	case dd_Generator: /* V-representation */
+		if (dilation_const != 1) {
+			cerr << "Dilation unimplemented for V-representation input" << endl;
+			THROW_LATTE(LattException::ue_BadCommandLineOption, 0);
+		}
 		return PolyhedronFromVrepMatrix(M, /* homogenize: */dualApproach[0]
 				== 'y');
 	case dd_Inequality: /* H-representation */
-- 
2.43.0


From dcacc50deaeedc4c8602c92c0b4fc992c5689e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 05/36] fix: integrating the zero polynomial dereferenced an
 empty burst trie

---
 code/latte/integration/iterators.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/latte/integration/iterators.hpp b/code/latte/integration/iterators.hpp
index 3fe0158..11010ae 100644
--- a/code/latte/integration/iterators.hpp
+++ b/code/latte/integration/iterators.hpp
@@ -31,6 +31,8 @@ public:
 	{
 		//cout << "Next container at depth " << curDepth << endl;
 		trieElem* nextElem;
+		if (!myTrie) //the zero polynomial has no trie
+			return NULL;
 		if (curDepth < 0)
 		{
 			curDepth++;
-- 
2.43.0


From 968498a1b669cdd44b6f2de4f52f4295ccf537d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 06/36] fix: polynomials with repeated monomials failed an
 assertion

---
 code/latte/valuation/PolytopeValuation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 66f51ad..7642af7 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -246,7 +246,8 @@ void PolytopeValuation::dilatePolynomialToLinearForms(linFormSum &linearForms, c
 		}//insert the non-constant monomial
 	}//for every term in the originalPolynomial
 
-	assert(originalPolynomial.termCount == transformedPolynomial.termCount + numberConstantTerms
+	//termCount counts the insertions, and like terms of the original polynomial have been combined.
+	assert(originalPolynomial.termCount >= transformedPolynomial.termCount + numberConstantTerms
 			&& originalPolynomial.varCount == transformedPolynomial.varCount );
 	assert(numberConstantTerms <= 1);
 
-- 
2.43.0


From 3c4fb9c4f6814ab0cad2f27a8234420bf809d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 07/36] fix: integral of a product of linear forms that
 vanishes on a simplex aborted

---
 code/latte/integration/newIntegration.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/newIntegration.cpp b/code/latte/integration/newIntegration.cpp
index 58aef7a..1cca68c 100644
--- a/code/latte/integration/newIntegration.cpp
+++ b/code/latte/integration/newIntegration.cpp
@@ -477,7 +477,7 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 	finalPoly->setTrie(polynomialProduct.myMonomials, polynomialProduct.varCount);
 	finalPoly->begin();
 	term<RationalNTL, int>* storedTerm;
-	bool found;
+	bool found = false;
 	while ((storedTerm = finalPoly->nextTerm()) != 0)
 	{
 		found = true;
@@ -494,7 +494,8 @@ RationalNTL integrateLinFormProducts(PolyIterator<RationalNTL, ZZ>* it, const si
 			break;
 		}//found coeff. of highest term.
 	}//while
-	assert(found == true);
+	if (found == false)
+		answer = 0; //the coeff. of M is zero: the integral over this simplex vanishes.
 
 	return answer;
 }//integrateLinFormProducts
-- 
2.43.0


From d80bdbaea791666a82f446017b8a09a569fb2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:31 +0000
Subject: [PATCH 08/36] fix: debug_triangulation was never initialised

---
 code/latte/barvinok/barvinok.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/barvinok/barvinok.cpp b/code/latte/barvinok/barvinok.cpp
index b88e3fc..5897edc 100644
--- a/code/latte/barvinok/barvinok.cpp
+++ b/code/latte/barvinok/barvinok.cpp
@@ -66,6 +66,7 @@ BarvinokParameters::BarvinokParameters() :
   nonsimplicial_subdivision(false),
   triangulation_special_cone(NULL),
   triangulation_prescribed_height_data(NULL),
+  debug_triangulation(false),
   triangulation_assume_fulldim(true),
   dualization(
 #ifdef HAVE_FORTYTWO_LIB
-- 
2.43.0


From 9d5813d8a94189f8504c395fd46bdf81ccf275df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 09/36] fix: homogenizing a vertex representation with rational
 vertices failed an assertion

---
 code/latte/ReadPolyhedron.cpp | 10 ++++++++--
 code/latte/latte_gmp.cpp      |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index dbd997f..466b190 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -926,11 +926,17 @@ Polyhedron *PolyhedronFromVrepMatrix(dd_MatrixPtr matrix, bool homogenize) {
 		for (i = 1; i <= matrix->rowsize; i++) {
 			if (!set_member(i, redundant)) {
 				int j;
+				/* A vertex may be rational; the ray of the homogenization
+				 through it is then scaled to be integral. */
+				mpz_class scale = 1;
+				for (j = 0; j < matrix->colsize; j++)
+					mpz_lcm(scale.get_mpz_t(), scale.get_mpz_t(),
+							mpq_denref(matrix->matrix[i - 1][j]));
 				/* CDD has homogenization in the 0-th,
 				 LattE expects it in the last coordinate. */
 				for (j = 0; j < matrix->colsize - 1; j++)
-					ray[j] = convert_mpq_to_ZZ(matrix->matrix[i - 1][j + 1]);
-				ray[matrix->colsize - 1] = convert_mpq_to_ZZ(matrix->matrix[i - 1][0]);
+					ray[j] = convert_mpq_to_ZZ(mpq_class(mpq_class(matrix->matrix[i - 1][j + 1]) * scale));
+				ray[matrix->colsize - 1] = convert_mpq_to_ZZ(mpq_class(mpq_class(matrix->matrix[i - 1][0]) * scale));
 				cone->rays = appendVectorToListVector(ray, cone->rays);
 				cone->vertex = new Vertex(createRationalVector(P->numOfVars));
 			}
diff --git a/code/latte/latte_gmp.cpp b/code/latte/latte_gmp.cpp
index 8036222..e659fef 100644
--- a/code/latte/latte_gmp.cpp
+++ b/code/latte/latte_gmp.cpp
@@ -78,7 +78,7 @@ convert_mpq_to_ZZ(mpq_t mpq)
 }
 
 ZZ
-convert_mpq_to_ZZ(mpq_class elt)
+convert_mpq_to_ZZ(const mpq_class &elt)
 {
   assert(elt.get_den() == 1);
   return convert_mpz_to_ZZ(elt.get_num());
-- 
2.43.0


From 9ce8e9c38f2bc6962481637e994042e8bdee3e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 10/36] fix: products of linear forms with repeated, constant
 or zero-coefficient factors were integrated wrongly

---
 code/latte/integration/PolyTrie.cpp        | 44 +++++++++++++++++++++-
 code/latte/valuation/PolytopeValuation.cpp |  2 +
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/code/latte/integration/PolyTrie.cpp b/code/latte/integration/PolyTrie.cpp
index 0d1a9cd..1c1ab42 100644
--- a/code/latte/integration/PolyTrie.cpp
+++ b/code/latte/integration/PolyTrie.cpp
@@ -332,6 +332,31 @@ void loadLinFormProducts(linFormProductSum &forms, const string line)
 	parseLinFormProducts(myLoader, line);
 	delete myLoader;
 }
+//Adds the factor form^degree to a product. The terms of a linFormSum with the
+//same form and degree are added up, so powers of one linear form are joined
+//here; and a constant factor is only kept if there is no other one.
+static void addFactor(vector<int> &degrees, vector<vec_ZZ> &forms, int degree, const vec_ZZ &form)
+{
+	if (degrees.size() == 1 && degrees[0] == 0)
+	{
+		degrees[0] = degree;
+		forms[0] = form;
+		return;
+	}
+	if (degree == 0 && degrees.size() > 0)
+		return;
+	for (int i = 0; i < (int) forms.size(); ++i)
+	{
+		if (forms[i] == form)
+		{
+			degrees[i] += degree;
+			return;
+		}
+	}
+	degrees.push_back(degree);
+	forms.push_back(form);
+}
+
 //Loads a string by parsing it as a sum of linear forms
 //linear form: a * (c^b * f^e * h^g) + ...
 //nested list: [ [a, [[b, [c]], [e, [f]], [g, [h]]]], ... ]
@@ -363,6 +388,10 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 	int degree;
 	RationalNTL coefficient;
 
+	//the factors of the current product, with distinct linear forms.
+	vector<int> factorDegrees;
+	vector<vec_ZZ> factorForms;
+
 	int productIndex = 0;
 	for (int i = 1; i < line.length() - 1; i++) //ignore outermost square brackets
 	{
@@ -411,8 +440,7 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 					//for(int w = 0; w < coefs.length(); ++w)
 					//	cout << coefs[w] << ", ";
 					//cout << "into " << productIndex << endl;
-					consumer->ConsumeLinForm(productIndex, coefficient, degree, coefs);
-					coefficient = 1; //the other coefficients in this product are 1.
+					addFactor(factorDegrees, factorForms, degree, coefs);
 
 					for(; line[i] != ']'; ++i); //end of linear form list: [[p, [l]] ]
 					//for(; line[i] != ']'; ++i); //end of linear form list: [[[p, [l]] ]
@@ -431,6 +459,18 @@ void parseLinFormProducts(FormProductLoadConsumer<RationalNTL>* consumer, const
 							break;
 						}
 					}
+					if (flag == 0)
+					{
+						for (int f = 0; f < (int) factorForms.size(); ++f)
+						{
+							consumer->ConsumeLinForm(productIndex, coefficient, factorDegrees[f], factorForms[f]);
+							if (coefficient == 0)
+								break; //the product is zero, whatever its other factors are.
+							coefficient = 1; //the other coefficients in this product are 1.
+						}
+						factorDegrees.clear();
+						factorForms.clear();
+					}//the product is complete.
 					break;
 				default: //error
 					cout << "Flag is " << flag << ", error." << endl;
diff --git a/code/latte/valuation/PolytopeValuation.cpp b/code/latte/valuation/PolytopeValuation.cpp
index 7642af7..42266d2 100644
--- a/code/latte/valuation/PolytopeValuation.cpp
+++ b/code/latte/valuation/PolytopeValuation.cpp
@@ -542,6 +542,8 @@ RationalNTL PolytopeValuation::findIntegral(const linFormProductSum& originalLin
 	{
 		linFormSum linearForms;
 		RationalNTL currentConstantMonomial;
+		if ( originalLinearFormProducts[i].termCount == 0)
+			continue; //this product has the coefficient zero.
 		dilateLinearForms(linearForms, originalLinearFormProducts[i], dilationFactor, currentConstantMonomial);
 
 		if ( linearForms.termCount > 0 && currentConstantMonomial != 0)
-- 
2.43.0


From 7fa48017504a348c9b21294665267dbfa7b223b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 11/36] fix: latte-minimize bbs printed the negated optimal
 value

---
 code/latte/binarySearchIP.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 24d80af..dd66131 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -298,7 +298,10 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       }
 
       if(IsZero(Opt) == 0){
-        cerr << "The optimal value: " << high - 1 << endl << endl;
+        if(min[0] == 'y')
+          cerr << "The optimal value: " << -(high - 1) << endl << endl;
+        else
+          cerr << "The optimal value: " << high - 1 << endl << endl;
 	return Opt;
 	}
        else{
-- 
2.43.0


From 0f3be577ab46bb45bc6315922805612ba5bfd735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 12/36] fix: dependent equations skipped the integrality check
 (count --redundancy-check=none)

---
 code/latte/preprocess.cpp | 53 +++++++++++++--------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index 70a0b5c..fe0e2db 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -358,10 +358,9 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	 U contains the unimodular transformation matrix, and
 	 H contains the Hermite normal form.
 	 We have A.U = H. */
-	mat_ZZ UU, HH, HHH;
+	mat_ZZ UU, HH;
 	UU.SetDims(*numOfVars, *numOfVars);
 	HH.SetDims(numOfRows, *numOfVars);
-	HHH.SetDims(numOfRows, numOfRows);
 
 	int counter = 0;
 	for (i = 0; i < *numOfVars; i++) {
@@ -379,26 +378,9 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 		}
 	}
 
-	for (i = 0; i < numOfRows; i++) {
-		for (j = 0; j < numOfRows; j++) {
-			HHH[i][j] = HH[i][j];
-		}
-	}
-
 	// cerr << HH << UU << endl;
 	//  cerr << rhs << endl;
-	ZZ DD, zeros;
-	mat_ZZ invHH;
-	inv(DD, invHH, HHH);
-	//  cerr <<  invHH <<endl << rhs << endl << DD << endl;
-	vec_ZZ sol2;
 	sol = createVector(*numOfVars);
-	sol2 = createVector(*numOfVars);
-	if (DD != 0) {
-	  vec_ZZ solb = invHH * rhs;
-	  for (i = 0; i < solb.length(); i++)
-	    sol2[i] = solb[i];
-	}
 
 	for (i = 0; i < (*numOfVars); i++)
 		sol[i] = 0;
@@ -407,9 +389,10 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	//    cerr << "numOfRows " << numOfRows << endl;
 	//    cerr << "numOfVars " << *numOfVars << endl;
 
+	bool integrallyEmpty = false;
 	indSol = 0;
 	for (i = 0; i < numOfRows; i++) {
-		if (H[(*numOfVars) * i + i] != 0) {
+		if (i < *numOfVars && H[(*numOfVars) * i + i] != 0) {
 			//    cerr << "numOfRows " << numOfRows << endl;
 			//    cerr << "numOfVars " << *numOfVars << endl;
 			//    cerr << "lenOfMatrix " << lenOfMatrix << endl;
@@ -417,31 +400,29 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 			//        cerr << i << " " << indSol << " " << rhs[i] << " "
 			//  	   << H[(*numOfVars)*i+i] << endl;
 			// cerr << "Mmm..." << endl;
-			sol[i] = rhs[i] / H[(*numOfVars) * i + i];
+			if (!divide(sol[i], rhs[i], H[(*numOfVars) * i + i]))
+				integrallyEmpty = true;
 			indSol++;
 			for (j = i + 1; j < numOfRows; j++) {
 				rhs[j] = rhs[j] - sol[i] * H[j * (*numOfVars) + i];
 				//	H[j*(*numOfVars)+i]=0;
 			}
-		}
+		} else if (rhs[i] != 0)
+			integrallyEmpty = true; // a dependent equation that contradicts the others
+		if (integrallyEmpty)
+			break;
 	}
 	cerr << "sol:\n";
 	//    int flag_sol = 0;
 	printVectorToFile(cerr, sol, *numOfVars);
-	if (DD != 0) {
-		for (i = 0; i < *numOfVars; i++) {
-			zeros = abs(sol2[i] - sol[i] * DD);
-			if (zeros != 0) {
-				cerr << "Integrally empty polytope." << endl;
-				cerr << "\n\n**** Total number of lattice points: 0 ****"
-						<< endl << endl;
-				ofstream OutZero("numOfLatticePoints");
-				OutZero << 0 << endl;
-				exit(0);
-			}
-			zeros = 0;
-		}
-	}//cerr << sol << endl;
+	if (integrallyEmpty) {
+		cerr << "Integrally empty polytope." << endl;
+		cerr << "\n\n**** Total number of lattice points: 0 ****"
+				<< endl << endl;
+		ofstream OutZero("numOfLatticePoints");
+		OutZero << 0 << endl;
+		exit(0);
+	}
 	particularSolution = createVector(*numOfVars);
 	for (i = 0; i < (*numOfVars); i++)
 		particularSolution[i] = 0;
-- 
2.43.0


From 442e5c5adfbb11ec02fdbf6b090474cd92ff387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 13/36] fix: equations that determine a single integer point
 were counted as 0 (count --redundancy-check=none or cddlib)

---
 code/latte/preprocess.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index fe0e2db..aa3ab27 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -596,14 +596,18 @@ listVector* preprocessProblem(listVector *equations, listVector *inequalities,
 	/*    printListVector(inequalities,(*numOfVars)+1); */
 	cerr << "New inequalities:\n";
 	printListVectorToFile(cerr, newInequalities, newNumOfVars + 1);
-	checkListVector(newInequalities, newNumOfVars);
 	if (newInequalities == NULL) {
-
-		cerr << "\n\n****  Total number of lattice points is: 0 ****\n" << endl;
+		if (newNumOfVars > 1) {
+			cerr << "The polytope is not bounded." << endl;
+			exit(1);
+		}
+		/* The equations determine an integer point that satisfies all inequalities. */
+		cerr << "The number of lattice points is 1." << endl;
 		ofstream out("numOfLatticePoints");
-		out << 0 << endl;
+		out << 1 << endl;
 		exit(0);
 	}
+	checkListVector(newInequalities, newNumOfVars);
 	(*numOfVars) = newNumOfVars - 1;
 	return (newInequalities);
 }
-- 
2.43.0


From a30b4e10f894095e0574f348b6427b3584b1ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 14/36] fix: negative coordinates of the LP vertex were
 reported as 0 (maximize, minimize with equations)

---
 code/latte/preprocess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/preprocess.cpp b/code/latte/preprocess.cpp
index aa3ab27..3d8ec1a 100644
--- a/code/latte/preprocess.cpp
+++ b/code/latte/preprocess.cpp
@@ -999,7 +999,7 @@ vec_RR ProjectingUpRR(mat_RR ProjU, vec_RR cost, int numOfVars) {
 				answer[i] += cost[j - 1] * ProjU[i][j];
 
 			}
-			if (answer[i] < power2_RR(-10))
+			if (abs(answer[i]) < power2_RR(-10))
 				answer[i] = 0;
 		}
 	}// cerr << answer << endl;
-- 
2.43.0


From 23ea0c30782f6cdd31ab7f3094d46bf97a91d3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 15/36] fix: LattException::what() returned a pointer into a
 destroyed string

---
 code/latte/LattException.cpp | 8 +++-----
 code/latte/LattException.h   | 1 +
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/code/latte/LattException.cpp b/code/latte/LattException.cpp
index 5cc1350..b56ea73 100644
--- a/code/latte/LattException.cpp
+++ b/code/latte/LattException.cpp
@@ -17,6 +17,8 @@ LattException::LattException(UserError ue, const char * file, const int line, co
 	lineNumber = line;
 	msg = message;
 	printStatus = b;
+	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
+		whatMessage = printErrorMessages();
 }
 
 
@@ -58,9 +60,5 @@ string  LattException::printErrorMessages() const
 
 const char* LattException::what() const throw()
 {
-	string s = "";
-	if ( LATTEXCEPTION_PRINTSTATUS || printStatus == 1 )
-	s = printErrorMessages();
-
-	return s.c_str();
+	return whatMessage.c_str();
 }
diff --git a/code/latte/LattException.h b/code/latte/LattException.h
index 812d996..c4bdf54 100644
--- a/code/latte/LattException.h
+++ b/code/latte/LattException.h
@@ -92,6 +92,7 @@ private:
 	int lineNumber;
 	string fileName;
 	bool printStatus;
+	string whatMessage; //text returned by what(); has to live as long as the exception.
 };
 
 #endif /* LATTEXCEPTION_H_ */
-- 
2.43.0


From 88dd0d7aeb6d67b7531a2d3b5485b63096d0861b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 16/36] fix: ConvertCDDineToLatte turned equations into
 inequalities

---
 code/latte/convertCDD_ine_to_latte.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/latte/convertCDD_ine_to_latte.cpp b/code/latte/convertCDD_ine_to_latte.cpp
index 32e6907..dfd20c5 100644
--- a/code/latte/convertCDD_ine_to_latte.cpp
+++ b/code/latte/convertCDD_ine_to_latte.cpp
@@ -28,6 +28,7 @@ int main( int argc, const char* argv[] )
 	ifstream input(argv[1]);
 	ofstream output(argv[2]);
 	string line;
+	string linearity; //the equations, if there are any.
 	vector<RationalNTL> hRep;
 	long numRows, ambDim;
 	ZZ lcmDenom;
@@ -35,6 +36,8 @@ int main( int argc, const char* argv[] )
 	while ( getline(input, line))
 		if ( line == "begin")
 			break;
+		else if ( line.compare(0, 9, "linearity") == 0)
+			linearity = line;
 //	getline(input, line);
 
 	input >> numRows >> ambDim;
@@ -59,6 +62,9 @@ int main( int argc, const char* argv[] )
 
 	}//for each row.
 
+	if ( linearity != "")
+		output << linearity << endl;
+
 	input.close();
 	output.close();
 	return 0;
-- 
2.43.0


From 3e9c93c0c8aefe810f069f0938e2a4e467c9863b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 17/36] fix: entries like 4/2 were not brought to lowest terms
 and zero denominators were accepted (LattE-style input)

---
 code/latte/ReadLatteStyle.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index a76cf41..18050b9 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -103,6 +103,12 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 		for (j = 0; j < numOfVars; j++) {
 			f >> x;
 			check_stream(f, fileName, "ReadLatteStyleMatrix");
+			if (x.get_den() == 0) {
+				cerr << "Zero denominator in input file " << fileName << "."
+						<< endl;
+				THROW_LATTE(LattException::fe_Parse, 0);
+			}
+			x.canonicalize();
 			dd_set(matrix->matrix[i][j + num_homog], x.get_mpq_t());
 		}
 	}
-- 
2.43.0


From be9164c06ff21986228b4880f70529a9f1b19d71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 18/36] fix: indices of linearity and nonnegative out of range
 were accepted (LattE-style input)

---
 code/latte/ReadLatteStyle.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/code/latte/ReadLatteStyle.cpp b/code/latte/ReadLatteStyle.cpp
index 18050b9..65019cd 100644
--- a/code/latte/ReadLatteStyle.cpp
+++ b/code/latte/ReadLatteStyle.cpp
@@ -41,6 +41,15 @@ static void check_stream(const istream &f, const char *fileName,
 }
 ;
 
+static void check_index(int index, int max_index, const char *keyword,
+		const char *fileName) {
+	if (index < 1 || index > max_index) {
+		cerr << "Index " << index << " of keyword `" << keyword
+				<< "' is out of range in input file " << fileName << "." << endl;
+		THROW_LATTE(LattException::ue_BadFileOption, 0);
+	}
+}
+
 dd_MatrixPtr ReadLatteStyleMatrix(const char *fileName, bool vrep,
 		bool homogenize, bool nonnegativity) {
 	ifstream f(fileName);
@@ -130,6 +139,7 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 				int index; /* 1-based */
 				f >> index;
 				check_stream(f, fileName, "ReadLatteStyleMatrix");
+				check_index(index, matrix->rowsize, buffer, fileName);
 				set_addelem(matrix->linset, index /* 1-based */);
 			}
 		} else if (strcmp(buffer, "nonnegative") == 0) {
@@ -147,6 +157,7 @@ dd_MatrixPtr ReadLatteStyleMatrix(istream &f, bool vrep, bool homogenize,
 				int index; /* 1-based */
 				f >> index;
 				check_stream(f, fileName, "ReadLatteStyleMatrix");
+				check_index(index, numOfVars - 1, buffer, fileName);
 				nonnegatives[k] = index;
 			}
 			// Create a new matrix that includes non-negativity
-- 
2.43.0


From 272c208ee800314208473adad75622b2d361a870 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:01:10 +0000
Subject: [PATCH 19/36] fix: count --vrep took the vertices line by line,
 unchecked, so blank or broken lines and non-numbers changed the polytope

---
 code/latte/ReadPolyhedron.cpp | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 466b190..32e2c37 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -624,21 +624,6 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 				cerr << "Dilation unimplemented for `vrep' input" << endl;
 				THROW_LATTE(LattException::ue_BadCommandLineOption, 0);
 			}
-			if (dualApproach[0] != 'y') {
-				/* FIXME: Special case that ought to be handled uniformly.
-				 *
-				 * Brandon: I think I fixed this by changing PolyhedronFromVrepMatrix.
-				 *          I think we can just delete this if-statement, and it will work.
-				 */
-				/* Don't homogenize. */
-				Polyhedron *P = new Polyhedron;
-				P->cones = computeVertexConesFromVrep(filename.c_str(),
-						P->numOfVars);
-
-				P->dualized = false;
-				P->homogenized = false;
-				return P; /* Directly deliver the polyhedron. */
-			}
 			M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */true,
 			/* homogenize: */false);
 		} else {
-- 
2.43.0


From 985e7c709477a7ea084f1739a9c0488925fbc8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 20/36] fix: unbounded polyhedra were answered with numbers by
 the homogenized methods (count --homog, --ehrhart-series, --ehrhart-taylor,
 integrate --triangulate)

---
 code/latte/ReadPolyhedron.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 32e2c37..335524d 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -257,6 +257,37 @@ bool ReadPolyhedronData::parse_option(const char *arg) {
 	return true;
 }
 
+/**
+ * Whether the polyhedron (assumed to be nonempty and pointed) of the inequalities theMatrix is unbounded.
+ * The inequalities of its recession cone are  a.r >= 0;  their sum is positive on every nonzero r in it.
+ */
+static bool
+is_unbounded(listVector *theMatrix, int numOfVars)
+{
+	int numRows = lengthListVector(theMatrix);
+	dd_ErrorType error = dd_NoError;
+	dd_MatrixPtr matrix = rays_to_cddlib_matrix(theMatrix, numOfVars + 1, 0, 1);
+	matrix->representation = dd_Inequality;
+	matrix->objective = dd_LPmax;
+	for (int j = 1; j <= numOfVars; j++)
+	{
+		for (int i = 0; i < numRows; i++)
+			dd_add(matrix->rowvec[j], matrix->rowvec[j], matrix->matrix[i][j]);
+		dd_neg(matrix->matrix[numRows][j], matrix->rowvec[j]);
+	}
+	for (int i = 0; i < numRows; i++)
+		dd_set_si(matrix->matrix[i][0], 0);
+	dd_set_si(matrix->matrix[numRows][0], 1);	// normalization: sum <= 1
+	dd_LPPtr lp = dd_Matrix2LP(matrix, &error);
+	check_cddlib_error(error, "is_unbounded");
+	dd_LPSolve(lp, dd_DualSimplex, &error);
+	check_cddlib_error(error, "is_unbounded");
+	bool result = dd_Positive(lp->optvalue);
+	dd_FreeLPData(lp);
+	dd_FreeMatrix(matrix);
+	return result;
+}
+
 /**
  * Converts a matrix to its v-rep or finds the tangent cones. The result is saved in the Polyhedron
  * @parm theMatirx: Full-dimensional inequality matrix in cdd format
@@ -290,6 +321,7 @@ void  ReadPolyhedronData::matrixToVerticesOrCones(listVector * theMatrix, int nu
 		delete rays; // deletes dummy head
 		Poly->dualized = true;
 		Poly->homogenized = true;
+		Poly->unbounded = is_unbounded(theMatrix, numOfVars);
 	} else {
 		Poly->numOfVars = numOfVars;
 		/* Compute vertices and edges. */
-- 
2.43.0


From b5da39477eb2db47ee9b973dfdd27c67a0fdc0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 21/36] fix: exit status 0 for unbounded polyhedra (maximize,
 minimize, ehrhart)

---
 code/latte/vertices/cdd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index 77edb13..b971375 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -552,7 +552,7 @@ listCone* readCddExtFile(int &numOfVars)
 			if (read == '0')
 			{
 				cerr << "\n\nreadCddExtFile:: Unbounded polytope!" << endl << endl;
-				exit(0);
+				exit(1);
 			}
 		}
 
@@ -602,7 +602,7 @@ listCone* readCddExtFile(int &numOfVars)
 					cerr << "\n\nreadCddExtFile:: Given polyhedron is unbounded!!!(2)\n\n";
 					ofstream Empty("numOfLatticePoints");
 					Empty << 0 << endl;
-					exit(0);
+					exit(1);
 				}
 				//Ok, we have just read in the leading "1"...which could be something else if the vertex is not integer.
 				//Save the rational number.
-- 
2.43.0


From a211a2e0d8847334d7d6690facf353addf6bff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 22/36] fix: malformed LattE files made the emptiness check run
 on garbage (hours, gigabytes) before they were rejected

---
 code/latte/ReadPolyhedron.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/code/latte/ReadPolyhedron.cpp b/code/latte/ReadPolyhedron.cpp
index 335524d..5373cb4 100644
--- a/code/latte/ReadPolyhedron.cpp
+++ b/code/latte/ReadPolyhedron.cpp
@@ -424,10 +424,11 @@ listVector *ReadPolyhedronData::read_full_rank_inequality_matrix(BarvinokParamet
 		}
 
 		/* Not VREP. */
-		CheckEmpty(filename.c_str());
 		M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */false,
 		/* homogenize: */false,
 		/* nonnegative: */nonneg[0] == 'y');
+		/* After reading the file, which checks its format. */
+		CheckEmpty(filename.c_str());
 	}//if cdd or latte file format.
 
 	/* Now we have in M the H-representation*/
@@ -660,10 +661,11 @@ ReadPolyhedronData::read_polyhedron_hairy(BarvinokParameters *params) {
 			/* homogenize: */false);
 		} else {
 			/* Not VREP. */
-			CheckEmpty(filename.c_str());
 			M = ReadLatteStyleMatrix(filename.c_str(), /* vrep: */false,
 			/* homogenize: */false,
 			/* nonnegative: */nonneg[0] == 'y');
+			/* After reading the file, which checks its format. */
+			CheckEmpty(filename.c_str());
 		}
 	}
 
-- 
2.43.0


From 7d6cf2837d1ecacf4d87104f7ee935d0fb1adbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 23/36] fix: an incomplete LP result (disk full) was taken for
 an empty polytope

---
 code/latte/CheckEmpty.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index d7295c7..2dab5e4 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -154,7 +154,7 @@ void CheckEmpty(const char * Filename){
   system_with_error_check("rm -f Check_emp.lps");
   system_with_error_check(shell_quote(relocated_pathname(CDD_PATH)) + " Check_emp.lp > Check_emp.out");
 
-  int FLAG = 0;
+  int FLAG = 0, INCONSISTENT = 0;
 
   ifstream IN3("Check_emp.lps");
   if(!IN3){
@@ -166,6 +166,13 @@ void CheckEmpty(const char * Filename){
     if((tmpString == "primal_solution") || ( tmpString == "primal_direction")){
       FLAG = 1;
     }
+    else if(tmpString == "dual_direction") /* certificate of inconsistency */
+      INCONSISTENT = 1;
+  }
+
+  if(FLAG == 0 && INCONSISTENT == 0) {
+    cerr << "The file `Check_emp.lps' written by " << relocated_pathname(CDD_PATH) << " is incomplete." << endl;
+    exit(1);
   }
 
   //  system_with_error_check("rm Check_emp.*");
-- 
2.43.0


From 3e0b39e6ff51f1b3c6e9f0576d91f60caeabeab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 24/36] fix: truncated intermediate files (disk full) made the
 readers loop forever

---
 code/latte/IntegralHull.cpp   |  6 +++---
 code/latte/ReadingFile.cpp    |  4 ++--
 code/latte/binarySearchIP.cpp |  2 +-
 code/latte/dual.cpp           |  2 +-
 code/latte/latte_system.cpp   |  8 ++++++++
 code/latte/latte_system.h     |  6 ++++++
 code/latte/vertices/cdd.cpp   | 34 +++++++++++++++++-----------------
 7 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/code/latte/IntegralHull.cpp b/code/latte/IntegralHull.cpp
index 24e369b..822c091 100644
--- a/code/latte/IntegralHull.cpp
+++ b/code/latte/IntegralHull.cpp
@@ -594,8 +594,8 @@ listVector* GetHRepresentation(listVector* vertices, int numOfVars){
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
-  while (tmpString!="end"){ getline(in,tmpString); numOfHyperplane++;}
+  while (tmpString!="begin") getline_with_error_check(in,tmpString);
+  while (tmpString!="end"){ getline_with_error_check(in,tmpString); numOfHyperplane++;}
 
   numOfHyperplane = numOfHyperplane - 2;
   // cerr << numOfHyperplane << endl;
@@ -605,7 +605,7 @@ listVector* GetHRepresentation(listVector* vertices, int numOfVars){
     exit(2);
   }
 
-  while (tmpString != "begin") getline(in2,tmpString);
+  while (tmpString != "begin") getline_with_error_check(in2,tmpString);
   in2 >> tmpString >> tmpdim >> tmpString;
   vec_ZZ Hyperplane;
 
diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 211f6ea..ae879c2 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -184,7 +184,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     cerr << "Missing Check_red.out file..." << endl;
     exit(1);
   }
-  while (tmpString!="begin") getline(in3,tmpString);
+  while (tmpString!="begin") getline_with_error_check(in3,tmpString);
 
   in3 >> numOfConsts2 >> numOfDims >> tmpString;
 
@@ -366,7 +366,7 @@ void CheckInputFileCDDRep3(const char *InputFile){
   int counter = 0, dim, numOfConst, flag = 0;
   string tmpString;
  
-  while (tmpString!="begin") getline(in,tmpString);
+  while (tmpString!="begin") getline_with_error_check(in,tmpString);
 
   in >> numOfConst >> dim >> tmpString;
 
diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index dd66131..8a20f63 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -93,7 +93,7 @@ rationalVector* ReadLpsFile2(int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  while (tmpString!="begin") getline_with_error_check(in,tmpString);
   in >> tmpString;
   for(int i = 0; i < numOfVars; i++)
     {
diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index ba688b5..4e1d9b5 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -115,7 +115,7 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline(in,tmpString);
+  while (tmpString!="begin") getline_with_error_check(in,tmpString);
 
   in >> numOfVertices >> tmpInt >> tmpString;
 
diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 4984b7c..393b059 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -47,6 +47,14 @@ void system_with_error_check(const string &command)
   system_with_error_check(command.c_str());
 }
 
+void getline_with_error_check(std::istream &in, std::string &line)
+{
+  if (!std::getline(in, line)) {
+    cerr << "Unexpected end of an intermediate file." << endl;
+    exit(1);
+  }
+}
+
 string shell_quote(const string &argument)
 {
   // Quote unless all characters in ARGUMENT are from a very
diff --git a/code/latte/latte_system.h b/code/latte/latte_system.h
index cbe7964..51c5ab1 100644
--- a/code/latte/latte_system.h
+++ b/code/latte/latte_system.h
@@ -23,6 +23,7 @@
 #ifndef LATTE_SYSTEM_H
 #define LATTE_SYSTEM_H
 
+#include <istream>
 #include <string>
 
 // Execute COMMAND with the system shell.
@@ -38,6 +39,11 @@ std::string shell_quote(const std::string &argument);
 void
 rename_with_error_check(const std::string &old_name, const std::string &new_name);
 
+// Read the next line of the file of an external program (or a file that
+// we have written ourselves).  When there is none (the file is
+// truncated), report and exit the program.
+void getline_with_error_check(std::istream &in, std::string &line);
+
 // Functions for storing intermediate data in a secure temporary
 // directory.  (More importantly, different runs of LattE are isolated
 // from each other.)  The  function `temporary_directory_name' returns
diff --git a/code/latte/vertices/cdd.cpp b/code/latte/vertices/cdd.cpp
index b971375..463a8fc 100644
--- a/code/latte/vertices/cdd.cpp
+++ b/code/latte/vertices/cdd.cpp
@@ -222,15 +222,15 @@ void createLrsIneFileToPostAnalysys(listVector* matrix, int numOfVars)
 	int x, y;
 	string tmpString;
 	while (tmpString != "begin")
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 	OUT << "H-representation" << endl;
 	OUT << "begin" << endl;
 	in >> x >> y;
-	getline(in, tmpString);
+	getline_with_error_check(in, tmpString);
 	OUT << x << " " << y << " integer" << endl;
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 		OUT << tmpString << endl;
 	}
 
@@ -253,23 +253,23 @@ void createLrsExtFileToPostAnalysys(listVector* matrix, int numOfVars)
 	int counter = 0;
 	string tmpString;
 	while (tmpString != "begin")
-		getline(in2, tmpString);
-	getline(in2, tmpString);
+		getline_with_error_check(in2, tmpString);
+	getline_with_error_check(in2, tmpString);
 	while (tmpString != "end")
 	{
-		getline(in2, tmpString);
+		getline_with_error_check(in2, tmpString);
 		counter++;
 	}
 	counter--;
 	while (tmpString != "begin")
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 	OUT << "V-representation" << endl;
 	OUT << "begin" << endl;
-	getline(in, tmpString);
+	getline_with_error_check(in, tmpString);
 	OUT << counter << " " << numOfVars << " rational" << endl;
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 		OUT << tmpString << endl;
 	}
 
@@ -422,7 +422,7 @@ rationalVector* ReadLpsFile(int numOfVars, bool verbose = true)
 	}
 
 	while (tmpString != "begin")
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 	in >> tmpString;
 	for (int i = 0; i < numOfVars; i++)
 	{
@@ -522,7 +522,7 @@ listCone* readCddExtFile(int &numOfVars)
 	}
 
 	while (tmpString != "begin")
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 
 	in >> numOfVertices >> numOfVars >> tmpString;
 
@@ -648,7 +648,7 @@ listCone* readCddEadFile(listCone* cones, int numOfVars)
 	}
 
 	while (tmpString != "begin")
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 
 	in >> numOfVertices;
 	getline(in, tmpString);
@@ -741,21 +741,21 @@ void CreatExtEadFile()
 	}
 
 	while (tmpString != "end")
-		getline(in, tmpString);
-	getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
+	getline_with_error_check(in, tmpString);
 
 	ofstream outExt("latte_cdd.ext");
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 		outExt << tmpString << endl;
 	}
-	getline(in, tmpString);
+	getline_with_error_check(in, tmpString);
 
 	ofstream outEad("latte_cdd.ead");
 	while (tmpString != "end")
 	{
-		getline(in, tmpString);
+		getline_with_error_check(in, tmpString);
 		outEad << tmpString << endl;
 	}
 
-- 
2.43.0


From b554915280fed221b6490dee24309f4196b9bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 25/36] fix: a truncated Check_red.out (disk full) was taken
 for a smaller polytope

---
 code/latte/ReadingFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index ae879c2..dddba92 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -193,6 +193,11 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     for(int i = 0; i < numOfConsts2; i++)
       for(int j = 0; j < numOfDims; j++){
 	in3 >> newEnt[i][j]; }
+    in3 >> tmpString;
+    if (!in3 || tmpString != "end") {
+      cerr << "Incomplete Check_red.out file..." << endl;
+      exit(1);
+    }
 
     // Don't mess around in the directory of the input files.
     // Put temporary files in the current directory.
-- 
2.43.0


From 6573c66f40bbb868eef81e3b7f964b157340589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 26/36] fix: results that could not be written completely (disk
 full) were reported as success

---
 code/latte/ResSingle.cpp         | 2 +-
 code/latte/Residue.cpp           | 2 ++
 code/latte/RudyResNTL.cpp        | 2 +-
 code/latte/barvinok/barvinok.cpp | 2 ++
 code/latte/genFunction/maple.cpp | 4 ++++
 code/latte/latte_system.cpp      | 9 +++++++++
 code/latte/latte_system.h        | 6 +++++-
 7 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/code/latte/ResSingle.cpp b/code/latte/ResSingle.cpp
index 791ab3a..292560c 100644
--- a/code/latte/ResSingle.cpp
+++ b/code/latte/ResSingle.cpp
@@ -877,7 +877,7 @@ int ResidueFunction_Single_Cone(listCone *cones,
 	if (Residue_Parameters->Flags & PRINT)
 	{
 			 
-		Rational_Function_Output_File.close ();	 
+		close_with_error_check(Rational_Function_Output_File, "func.rat");	 
 	}
 	
 	for (int k = 0; k <= DEGREE;k++)
diff --git a/code/latte/Residue.cpp b/code/latte/Residue.cpp
index 07b3343..c80d646 100644
--- a/code/latte/Residue.cpp
+++ b/code/latte/Residue.cpp
@@ -32,6 +32,7 @@
 #include "cone.h"
 #include "ramon.h"
 #include "latte_ntl_integer.h"
+#include "latte_system.h"
 
 using namespace std;
 
@@ -563,6 +564,7 @@ Residue(listCone* cones, int numOfVars)
   noLatticePts=noLatticePts/tenPow;
   ofstream out("numOfLatticePoints");
   out << noLatticePts << endl;
+  close_with_error_check(out, "numOfLatticePoints");
 
   //OUTPUT TIMES AND RESULT
 //    cerr<<"denominator subclock: "<<sc<<endl<<"numerator subclock: "<<sc2<<endl
diff --git a/code/latte/RudyResNTL.cpp b/code/latte/RudyResNTL.cpp
index 03e35fa..140ed85 100644
--- a/code/latte/RudyResNTL.cpp
+++ b/code/latte/RudyResNTL.cpp
@@ -1218,7 +1218,7 @@ vec_ZZ ResidueFunction(listCone* cones, int numOfVars, int print_flag,
 	if(print_flag == 1)
 	{
 		Rational_Function_Output_File << ":" << endl;
-		Rational_Function_Output_File.close ();	 
+		close_with_error_check(Rational_Function_Output_File, "func.rat");	 
 	}
 	
 	if(DEGREE > 1){
diff --git a/code/latte/barvinok/barvinok.cpp b/code/latte/barvinok/barvinok.cpp
index 5897edc..7ff8b35 100644
--- a/code/latte/barvinok/barvinok.cpp
+++ b/code/latte/barvinok/barvinok.cpp
@@ -32,6 +32,7 @@
 #include "ComputeOmega.h"
 #include "barvinok.h"
 #include "../ramon.h"
+#include "../latte_system.h"
 #include "../RudyResNTL.h"
 #include "rational.h"
 #include "convert.h"
@@ -117,6 +118,7 @@ void BarvinokParameters::deliver_number_of_lattice_points(const ZZ &number)
   cout << endl;
   ofstream out("numOfLatticePoints");
   out << number << endl;
+  close_with_error_check(out, "numOfLatticePoints");
 }
 
 void Single_Cone_Parameters::print_statistics(ostream &s)
diff --git a/code/latte/genFunction/maple.cpp b/code/latte/genFunction/maple.cpp
index 11a23f5..b340777 100644
--- a/code/latte/genFunction/maple.cpp
+++ b/code/latte/genFunction/maple.cpp
@@ -150,6 +150,10 @@ int GeneratingFunctionWritingConeConsumer::ConsumeCone(listCone *cone)
     writeTermOfGeneratingFunctionToFile(genfun_stream, cone,
 					cone->latticePoints->first.length());
     genfun_stream << endl;
+    if (!genfun_stream) {
+      cerr << "Cannot write the generating function." << endl;
+      exit(1);
+    }
     first_term = false;
   }
   freeCone(cone);
diff --git a/code/latte/latte_system.cpp b/code/latte/latte_system.cpp
index 393b059..89b255b 100644
--- a/code/latte/latte_system.cpp
+++ b/code/latte/latte_system.cpp
@@ -47,6 +47,15 @@ void system_with_error_check(const string &command)
   system_with_error_check(command.c_str());
 }
 
+void close_with_error_check(std::ofstream &out, const std::string &name)
+{
+  out.close();
+  if (!out) {
+    cerr << "Cannot write output file " << name << "." << endl;
+    exit(1);
+  }
+}
+
 void getline_with_error_check(std::istream &in, std::string &line)
 {
   if (!std::getline(in, line)) {
diff --git a/code/latte/latte_system.h b/code/latte/latte_system.h
index 51c5ab1..6dfd94c 100644
--- a/code/latte/latte_system.h
+++ b/code/latte/latte_system.h
@@ -23,7 +23,7 @@
 #ifndef LATTE_SYSTEM_H
 #define LATTE_SYSTEM_H
 
-#include <istream>
+#include <fstream>
 #include <string>
 
 // Execute COMMAND with the system shell.
@@ -44,6 +44,10 @@ rename_with_error_check(const std::string &old_name, const std::string &new_name
 // truncated), report and exit the program.
 void getline_with_error_check(std::istream &in, std::string &line);
 
+// When OUT, a file of results named NAME, could not be written
+// completely (disk full), report and exit the program.
+void close_with_error_check(std::ofstream &out, const std::string &name);
+
 // Functions for storing intermediate data in a secure temporary
 // directory.  (More importantly, different runs of LattE are isolated
 // from each other.)  The  function `temporary_directory_name' returns
-- 
2.43.0


From 8cf94cebfed977f0d8e8d37e56c5bf78ce4b68a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 27/36] fix: IntegrationInput::unweightedCounting was read
 uninitialised (integrand from standard input)

---
 code/latte/valuation/valuation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/latte/valuation/valuation.cpp b/code/latte/valuation/valuation.cpp
index 98a86ff..453b0ec 100644
--- a/code/latte/valuation/valuation.cpp
+++ b/code/latte/valuation/valuation.cpp
@@ -1116,6 +1116,7 @@ Valuation::IntegrationInput::IntegrationInput()
 	numEhrhartCoefficients = -1; // incremental mode
 	realDilations = false; //formula is only valid for integer dilations, not rational/real ones.
 	saveTopEhrhartPolynomial = "-1"; //default is to not save the polynomial.
+	unweightedCounting = false;         //--valuation=top-ehrhart without an integrand
 
 	//Command line options. These are used by processUserInput()
 	//  to set up which algorithms will be used.
-- 
2.43.0


From f9e64b28582af441de016fcc185df4de10297675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 28/36] fix: 4ti2 triangulation returned non-simplicial cones
 when the random heights were equal or linearly dependent

---
 .../RegularTriangulationWith4ti2.cpp          | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
index e7ca3ba..6d92e7e 100644
--- a/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
+++ b/code/latte/triangulation/RegularTriangulationWith4ti2.cpp
@@ -82,6 +82,34 @@ static bool lindep_heights_p(listCone *cone, BarvinokParameters *Parameters,
 		return false;
 }
 
+static int dimension_of_cone(listCone *cone, BarvinokParameters *Parameters)
+{
+	VectorArray *ray_column_matrix = rays_to_transposed_4ti2_VectorArray(
+			cone->rays, Parameters->Number_of_Variables,
+			/* extra_rows: */0);
+	int rank = upper_triangle(*ray_column_matrix,
+			Parameters->Number_of_Variables, lengthListVector(cone->rays));
+	delete ray_column_matrix;
+	return rank;
+}
+
+/* The lifting heights yield the trivial polyhedral subdivision.  Return a
+   copy of the cone if it is simplicial (or need not be); otherwise try again
+   with random heights. */
+static void handle_trivial_subdivision(listCone *cone,
+		BarvinokParameters *Parameters, ConeConsumer &consumer)
+{
+	if (!Parameters->nonsimplicial_subdivision
+			&& lengthListVector(cone->rays) > dimension_of_cone(cone, Parameters))
+	{
+		int max_height = max(Parameters->triangulation_max_height, 10000);
+		triangulate_cone_with_4ti2(cone, Parameters, random_height,
+				&max_height, consumer);
+	}
+	else
+		consumer.ConsumeCone(copyCone(cone));
+}
+
 void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		height_function_type height_function, void *height_function_data,
 		ConeConsumer &consumer)
@@ -113,7 +141,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		 a copy of the cone. */
 		//cerr << "Trivial test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_trivial_heights++;
-		consumer.ConsumeCone(copyCone(cone));
+		handle_trivial_subdivision(cone, Parameters, consumer);
 		return;
 	}
 
@@ -123,7 +151,7 @@ void triangulate_cone_with_4ti2(listCone *cone, BarvinokParameters *Parameters,
 		//cerr << "Rank test: Lifting heights yield trivial polyhedral subdivision." << endl;
 		Parameters->num_triangulations_with_dependent_heights++;
 #ifndef DEBUG_RANKTEST
-		consumer.ConsumeCone(copyCone(cone));
+		handle_trivial_subdivision(cone, Parameters, consumer);
 		return;
 #endif
 	}
-- 
2.43.0


From 8f93d9a209e9a2c02c97ef246d0e21c75ea6a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 29/36] fix: PolynomialInterpolation::GE read past the matrix
 when a column has no pivot (too few points)

---
 code/latte/interpolation/PolynomialInterpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/latte/interpolation/PolynomialInterpolation.cpp b/code/latte/interpolation/PolynomialInterpolation.cpp
index 2bcf15f..8d11474 100644
--- a/code/latte/interpolation/PolynomialInterpolation.cpp
+++ b/code/latte/interpolation/PolynomialInterpolation.cpp
@@ -118,7 +118,7 @@ void PolynomialInterpolation::GE()
             currentRow = currentRow + 1;
         }
         
-        if(  currentRow > rowSize)
+        if(  currentRow >= rowSize)
 		{
 			currentColumn++;
             continue; //found column of zeros
-- 
2.43.0


From 0dc44866b483c4177c89f98c5a7e8e968dd70afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:00 +0000
Subject: [PATCH 30/36] fix: ehrhart crashed when the number of Taylor terms
 was not a positive integer

---
 code/latte/ehrhart.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/code/latte/ehrhart.cpp b/code/latte/ehrhart.cpp
index 400cfa9..6e00428 100644
--- a/code/latte/ehrhart.cpp
+++ b/code/latte/ehrhart.cpp
@@ -21,6 +21,8 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <limits.h>
 
 #include "config.h"
 #include "barvinok/dec.h"
@@ -214,7 +216,13 @@ int main(int argc, char *argv[]) {
   if(rationalCone[0] == 'y') strcpy(Memory_Save, "no");
   if(printfile[0] == 'y') print_flag = 1;
   if(taylor[0] == 'y'){
-    degree = atoi(argv[argc - 2]);
+    char *end;
+    long terms = strtol(argv[argc - 2], &end, 10);
+    if (*end != 0 || terms < 1 || terms > INT_MAX) {
+      cerr << "The number of Taylor terms must be a positive integer, not `" << argv[argc - 2] << "'." << endl;
+      exit(1);
+    }
+    degree = terms;
   }
   if(rationalCone[0] == 'y'){
     
-- 
2.43.0


From fdb27e423f63a2096a4c54e13c0355325f6fcbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 31/36] fix: CheckEmpty and CheckRed overflowed an array when a
 file has no rows or repeats equation indices

---
 code/latte/CheckEmpty.cpp  | 8 +++++---
 code/latte/ReadingFile.cpp | 5 +++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/code/latte/CheckEmpty.cpp b/code/latte/CheckEmpty.cpp
index 2dab5e4..a6a6ea6 100644
--- a/code/latte/CheckEmpty.cpp
+++ b/code/latte/CheckEmpty.cpp
@@ -21,6 +21,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <vector>
 
 #include "config.h"
 #include "barvinok/dec.h"
@@ -81,7 +82,7 @@ void CheckEmpty(const char * Filename){
   // cerr << "here" << endl;
   in >> numOfConsts >> numOfDims;
   //  cerr << numOfConsts << " " << numOfDims << endl; 
-  int equs[numOfConsts];
+  vector<int> equs(numOfEqu);
   //ZZ cost[numOfDims - 1];
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
@@ -95,7 +96,7 @@ void CheckEmpty(const char * Filename){
  //  cerr << "here3" << endl;
  // printListVector(CheckRedIneq(entries), numOfDims);
  if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
- 
+ equs.resize(numOfEqu);
  for(int i = 0; i < numOfEqu; i++) in >> equs[i];}
  // for(int i = 0; i < numOfEqu; i++) cerr << equs[i] << endl;
  /*  if(max[0] == 'y') 
@@ -144,7 +145,8 @@ void CheckEmpty(const char * Filename){
     }*/
   out<< "maximize" << endl; out << 0 << " " ;
   for(int j = 1; j < numOfDims; j++){
-    out << entries[0][j] << " "; }
+    if (numOfConsts > 0) out << entries[0][j] << " ";
+    else out << 0 << " "; }
   out << endl;
 
   /* CDD+ has a zero exit status even if an error occurs.  So make
diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index dddba92..0b75b71 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -21,6 +21,7 @@
 
 #include <string.h>
 #include <stdio.h>
+#include <vector>
 
 #include "config.h"
 #include "cone.h"
@@ -77,7 +78,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   // cerr << "here" << endl;
   in >> numOfConsts >> numOfDims;
   //  cerr << numOfConsts << " " << numOfDims << endl; 
-  int equs[numOfConsts];
+  vector<int> equs(numOfEqu);
   //ZZ cost[numOfDims - 1];
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
@@ -91,7 +92,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
  //  cerr << "here3" << endl;
  // printListVector(CheckRedIneq(entries), numOfDims);
  if((equ[0] == 'y') && (flag == 0)){ in >> numOfEqu;
- 
+ equs.resize(numOfEqu);
  for(int i = 0; i < numOfEqu; i++) in >> equs[i];}
  
  if(dil[0] == 'y')
-- 
2.43.0


From 84cbfa3e5e85c7c6d450830e883d5e58609941d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:03 +0000
Subject: [PATCH 32/36] fix: maximize, minimize and ehrhart failed on files
 with the nonnegative keyword before linearity

---
 code/latte/ReadingFile.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index 0b75b71..e9be587 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -48,6 +48,7 @@ void
 CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior, char* dil, int dilation)
 {
   int numOfConsts, numOfDims, numOfEqu = 0, flag = 0;
+  bool nonnegKeyword = false;
   string tmpString;
   int numOfNonneg = 0, hold = 0;
   vec_ZZ Index, Index2;
@@ -69,6 +70,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
     else if((tmpString == "NONNEGATIVE") || (tmpString == "nonnegative")){
       strcpy(nonneg, "yes");
       flag = 2;
+      nonnegKeyword = true;
       IN >> numOfNonneg;
       Index2.SetLength(numOfNonneg);
       for(int i = 0; i < numOfNonneg; i++) IN >> Index2[i];
@@ -83,7 +85,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
-  if(flag == 2) hold = numOfDims - 1;
+  if(nonnegKeyword) hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
  for(int i = 0; i < numOfConsts; i++)
@@ -131,7 +133,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
       out << entries[i][j] << " "; }//cerr << entries[i][j] << " ";}
     out << endl;
   }
-  if(nonneg[0] == 'y'){
+  if(nonnegKeyword){
     for(int i = 0; i < numOfDims - 1; i++){ 
       if(interior[0] == 'y') out << -1 << " ";
       else
@@ -177,7 +179,7 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
       
   }
     in2.close();
-  if(flag == 2) strcpy(nonneg, "no");
+  if(nonnegKeyword) strcpy(nonneg, "no");
   tmpString = "a";
   if(numOfEqu2 == 0) equ[0] = 'n';
   ifstream in3("Check_red.out");
-- 
2.43.0


From 7f45ed4cd58f085534fa9fc0eb42ebc1210d9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 33/36] fix: maximize, minimize and ehrhart with + aborted when
 a sign constraint makes the polytope lower-dimensional

---
 code/latte/ReadingFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/latte/ReadingFile.cpp b/code/latte/ReadingFile.cpp
index e9be587..2c597ca 100644
--- a/code/latte/ReadingFile.cpp
+++ b/code/latte/ReadingFile.cpp
@@ -85,6 +85,12 @@ CheckRed(string &Filename, char *equ, char * max, char* nonneg, char* interior,
   mat_ZZ entries;
   entries.SetDims(numOfConsts, numOfDims);
   // cerr << "here2" << endl;
+  if(nonneg[0] == 'y' && !nonnegKeyword){ // the option `+': all variables
+    nonnegKeyword = true;
+    numOfNonneg = numOfDims - 1;
+    Index2.SetLength(numOfNonneg);
+    for(int i = 0; i < numOfNonneg; i++) Index2[i] = i + 1;
+  }
   if(nonnegKeyword) hold = numOfDims - 1;
   for(int i = 0; i < numOfEqu; i++) conv(equs[i], Index[i]);
   //  cerr << "ther" << endl; 
-- 
2.43.0


From 6a0ff094e7e42bc843e0d84435343aa349015dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 34/36] fix: maximize, minimize and ehrhart ran the emptiness
 check on cdd files with uninitialised sizes

---
 code/latte/ehrhart.cpp  | 2 +-
 code/latte/maximize.cpp | 2 +-
 code/latte/minimize.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/latte/ehrhart.cpp b/code/latte/ehrhart.cpp
index 6e00428..6ccc7f7 100644
--- a/code/latte/ehrhart.cpp
+++ b/code/latte/ehrhart.cpp
@@ -304,7 +304,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName); // it reads LattE's own format
   //vector cost;
   /* Read problem data. */
   if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n'))
diff --git a/code/latte/maximize.cpp b/code/latte/maximize.cpp
index 4969c60..690c187 100644
--- a/code/latte/maximize.cpp
+++ b/code/latte/maximize.cpp
@@ -236,7 +236,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName); // it reads LattE's own format
   //vector cost;
   /* Read problem data. */
   if((cddstyle[0] == 'n') && (Vrepresentation[0] == 'n')) CheckRed(fileName, equationsPresent, maximum, nonneg, interior, dilation, dilation_const); 
diff --git a/code/latte/minimize.cpp b/code/latte/minimize.cpp
index 1935304..1fef5ce 100644
--- a/code/latte/minimize.cpp
+++ b/code/latte/minimize.cpp
@@ -236,7 +236,7 @@ int main(int argc, char *argv[]) {
       CheckInputFileCDDRep4(argv[argc - 1]);
       }
   }else CheckInputFileVrep(fileName);
-    CheckEmpty(fileName);
+    if(cddstyle[0] == 'n') CheckEmpty(fileName); // it reads LattE's own format
   //vec_ZZ cost;
   /* Read problem data. */
 
-- 
2.43.0


From abf392572115bb3c5d4dbc701785b9baa6f71a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 35/36] fix: dualize cones that are not full-dimensional

---
 code/latte/dual.cpp                | 42 +++++++++++++++++++++++++-----
 code/latte/normalize/normalize.cpp |  1 +
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/code/latte/dual.cpp b/code/latte/dual.cpp
index 4e1d9b5..fd28385 100644
--- a/code/latte/dual.cpp
+++ b/code/latte/dual.cpp
@@ -30,6 +30,8 @@
 #include "barvinok/dec.h"
 #include "convert.h"
 #include <list>
+#include <set>
+#include <sstream>
 #include "latte_system.h"
 #include "latte_relocatable.h"
 
@@ -115,7 +117,19 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
     exit(1);
   }
 
-  while (tmpString!="begin") getline_with_error_check(in,tmpString);
+  /* If the cone is not full-dimensional, its dual contains lines; cdd
+     gives the (1-based) indices of their generators. */
+  std::set<int> lines;
+  while (tmpString!="begin") {
+    getline_with_error_check(in,tmpString);
+    if (tmpString.compare(0, 10, "linearity ") == 0) {
+      istringstream linearity(tmpString.substr(10));
+      int k, index;
+      linearity >> k;
+      while (linearity >> index)
+	lines.insert(index);
+    }
+  }
 
   in >> numOfVertices >> tmpInt >> tmpString;
 
@@ -134,9 +148,15 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
       }
     }
     w=normalizeRationalVector(w,numOfVars);
-    endFacets->rest=createListVector(w->numerators());
+    if (lines.count(i + 1)) {
+      tmp->subspace_generators
+	= new listVector(w->numerators(), tmp->subspace_generators);
+    }
+    else {
+      endFacets->rest=createListVector(w->numerators());
+      endFacets=endFacets->rest;
+    }
     delete w;
-    endFacets=endFacets->rest;
   }
   in.close();
 #if 0
@@ -149,6 +169,16 @@ static void dualizeCone_with_cdd(listCone *tmp, int numOfVars)
 
 void computeDetAndFacetsOfSimplicialCone(listCone *cone, int numOfVars);
 
+static bool rays_independent(listVector *rays, int numOfVars)
+{
+  mat_ZZ Mat;
+  Mat.SetDims(numOfVars, numOfVars);
+  int i;
+  for (i = 0; i < numOfVars; i++, rays = rays->rest)
+    Mat[i] = rays->first;
+  return determinant(Mat) != 0;
+}
+
 void dualizeCone(listCone *tmp, int numOfVars, BarvinokParameters *params)
 {
   if ((tmp->rays != NULL && tmp->facets != NULL)
@@ -161,9 +191,9 @@ void dualizeCone(listCone *tmp, int numOfVars, BarvinokParameters *params)
     swap(tmp->rays, tmp->facets);
     swap(tmp->subspace_generators, tmp->equalities);
   }
-  else if (lengthListVector(tmp->rays) == params->Number_of_Variables) {
-    /* We assume full-dimensional cones, so this must be a simplicial
-       cone. */
+  else if (lengthListVector(tmp->rays) == params->Number_of_Variables
+	   && rays_independent(tmp->rays, params->Number_of_Variables)) {
+    /* A full-dimensional simplicial cone. */
     computeDetAndFacetsOfSimplicialCone(tmp, params->Number_of_Variables);
     swap(tmp->determinant, tmp->dual_determinant);
     swap(tmp->rays, tmp->facets);
diff --git a/code/latte/normalize/normalize.cpp b/code/latte/normalize/normalize.cpp
index 9f6c2e8..e4d4f3a 100644
--- a/code/latte/normalize/normalize.cpp
+++ b/code/latte/normalize/normalize.cpp
@@ -250,6 +250,7 @@ handle_cone(listCone *t, int t_count, int t_total, int level)
     stats << endl;
   }
   else if (num_rays == params.Number_of_Variables
+	   && t->determinant != 0	// otherwise, not full-dimensional
 	   && abs(t->determinant) < max_determinant_for_enumeration) {
     if (verbosity > 0) {
       cerr << "Enumerating fundamental parallelepiped..." << flush;
-- 
2.43.0


From 3dd034a5ef4707f2e1b2a86ed356d1caf01a77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:27 +0000
Subject: [PATCH 36/36] fix: binary search for the integer optimum failed
 unless the LP optimum was integral

---
 code/latte/binarySearchIP.cpp | 69 ++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/code/latte/binarySearchIP.cpp b/code/latte/binarySearchIP.cpp
index 8a20f63..0845d19 100644
--- a/code/latte/binarySearchIP.cpp
+++ b/code/latte/binarySearchIP.cpp
@@ -239,13 +239,29 @@ ZZ OptimalCheck(listVector* matrix, listVector* ineq, int numOfVars, ZZ rhs, vec
 
 /* ----------------------------------------------------------------- */
 
+/* num / den is the scalar product of cost and x, den is positive. */
+static void scalarProduct(const vec_ZZ &cost, rationalVector* x, int numOfVars, ZZ &num, ZZ &den)
+{
+  num = 0;
+  den = 1;
+  for (int i = 0; i < numOfVars; i++) {
+    num = num * x->denominators()[i] + cost[i] * x->numerators()[i] * den;
+    den *= x->denominators()[i];
+  }
+  if (den < 0) {
+    num = -num;
+    den = -den;
+  }
+}
+
+/* ----------------------------------------------------------------- */
+
 ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars, char * min)
 {
       int i = 0, counter = 0;
       ZZ low, high, mid, Opt, TotalNumOfUniCones;
       rationalVector *Low_opt, *High_opt;
-      vec_RR Low_solution, High_solution, tmp_den, tmp_num, Rat_cost, Rat_cost2;
-      RR Rat_low, Rat_high;
+      ZZ num, den;
       vec_ZZ low_cost;
       // cerr << cost << endl;
       low_cost = -cost;
@@ -261,42 +277,23 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
       //cerr << Low_opt ->denominators() << " " << High_opt->denominators()<< endl;
       cerr << "A optimal solution for LP relax.: ";
       printRationalVector(High_opt, numOfVars);
-      Low_solution.SetLength(numOfVars);
-      High_solution.SetLength(numOfVars);
-      tmp_den.SetLength(numOfVars);
-      tmp_num.SetLength(numOfVars);
-      Rat_cost.SetLength(numOfVars);
-      Rat_cost2.SetLength(numOfVars);
-
-      for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], High_opt->numerators()[i]);
-	 conv(tmp_den[i], High_opt->denominators()[i]);
-       	 High_solution[i] = tmp_num[i]/tmp_den[i];
-	 conv(Rat_cost[i], cost[i]);
-     		}
-
-      for (i = 0; i < numOfVars; i++){
-      	 conv(tmp_num[i], Low_opt->numerators()[i]);
-          conv(tmp_den[i], Low_opt->denominators()[i]);
-       	 Low_solution[i] = tmp_num[i]/tmp_den[i];
-     		}
-
-      Rat_high = Rat_cost * High_solution;
-      Rat_low = (Rat_cost) * Low_solution;
-      cerr << "The optimal value for LP relax.: " << Rat_high << endl << endl;
-      high = CeilToZZ(Rat_high);
-      Opt = OptimalCheckEqu(matrix, ineq, numOfVars, high, cost);
-
-      high += 1;
-      low = CeilToZZ(Rat_low);
 
+      // The objective values are computed exactly; between them, every
+      // slice that is counted below is nonempty.
+      scalarProduct(cost, High_opt, numOfVars, num, den);
+      cerr << "The optimal value for LP relax.: " << to_RR(num) / to_RR(den) << endl << endl;
+      high = num / den; // rounded down
+      scalarProduct(cost, Low_opt, numOfVars, num, den);
+      low = -((-num) / den); // rounded up
       if(high < low) {
-        ZZ tmp_ZZ;
-        tmp_ZZ = high;
-        high = low;
-        low = tmp_ZZ;
+        cerr<<"Integrally empty polytope.  Check the right hand side."<< endl;
+        exit(0);
       }
 
+      Opt = OptimalCheckEqu(matrix, ineq, numOfVars, high, cost);
+
+      high += 1;
+
       if(IsZero(Opt) == 0){
         if(min[0] == 'y')
           cerr << "The optimal value: " << -(high - 1) << endl << endl;
@@ -323,6 +320,10 @@ ZZ binarySearch(listVector* matrix, listVector* ineq, vec_ZZ cost, int numOfVars
 	  }
       }
       Opt = OptimalCheck(matrix, ineq, numOfVars, low, cost, TotalNumOfUniCones);
+      if(IsZero(Opt)) {
+        cerr<<"Integrally empty polytope.  Check the right hand side."<< endl;
+        exit(0);
+      }
       cerr << endl << "Total of Iterations: " << counter << endl;
       cerr << "The total number of unimodular cones: " << TotalNumOfUniCones << endl;
       if(min[0] == 'y')
-- 
2.43.0

