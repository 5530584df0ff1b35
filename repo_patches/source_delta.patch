From 1a2b89a3ec1d9f3eb5b7ca078a7e87e591032447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 01/64] fix: reject out of range positions in mat::addRow,
 addColumn and deleteRow before touching the matrix

---
 src/LinearAlgebra/matrix.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index 72446ac..a7c9e9d 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -192,13 +192,14 @@ void mat::addRow(const vec& rowVec, int position) {
 		position = nrows;
 	}
 
-	if(isEmpty()){
-		ncols = rowVec.getSize();
+	if (position < 0 || position > static_cast<int>(nrows)) {
+		throw std::invalid_argument("Position out of range.");
 	}
 
-	if (position > static_cast<int>(nrows)) {
-		throw std::invalid_argument("Position out of range.");
+	if(nrows == 0){
+		ncols = rowVec.getSize();
 	}
+
 	if (rowVec.getSize() != ncols) {
 		throw std::invalid_argument("Row vector size does not match the number of columns.");
 	}
@@ -235,14 +236,14 @@ void mat::addColumn(const vec& colVec, int position) {
 		position = ncols;
 	}
 
-	if(isEmpty()){
-		nrows = colVec.getSize();
+	if (position < 0 || position > static_cast<int>(ncols)) {
+		throw std::invalid_argument("Position out of range.");
 	}
 
-
-	if (position > static_cast<int>(ncols)) {
-		throw std::invalid_argument("Position out of range.");
+	if(ncols == 0){
+		nrows = colVec.getSize();
 	}
+
 	if (colVec.getSize() != nrows) {
 		throw std::invalid_argument("Column vector size does not match the number of rows.");
 	}
@@ -282,7 +283,7 @@ void mat::deleteRow(int rowIndex) {
 		rowIndex = nrows-1;
 	}
 
-	if (rowIndex >= static_cast<int>(nrows)) {
+	if (nrows == 0 || rowIndex < 0 || rowIndex >= static_cast<int>(nrows)) {
 		throw std::out_of_range("Row index out of range.");
 	}
 
-- 
2.43.0


From 9a3d261e9e6286282a86380e3fe5b2e3c71da8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 02/64] fix: mat::eye must clear the off-diagonal entries

---
 src/LinearAlgebra/matrix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index a7c9e9d..a5b58ef 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -547,6 +547,7 @@ void mat::eye(){
 	if (nrows  != ncols ) {
 		throw std::invalid_argument("mat::eye: Matrix must be square.");
 	}
+	fill(0.0);
 	for (unsigned int row = 0; row < nrows; ++row) {
 		matrix[row * nrows + row] = 1.0;
 
-- 
2.43.0


From a6f6aaf78dd0a63a9371c6af9fea09b89847ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 03/64] fix: singular matrices in the factorizations (null
 result matrix, leak, zero Cholesky pivot)

---
 src/LinearAlgebra/matrix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index a5b58ef..e97cf79 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1169,7 +1169,7 @@ mat mat::choleskyNaive(int& ret) const {
 
 			if (i == j) {
 				double fac = matrix[i + i * n] - sum;
-				if(fac < 0) {
+				if(!(fac > 0)) {
 					ret = -1;
 					return L;
 				}
@@ -1472,6 +1472,7 @@ mat mat::luOpenBlas(int* pivot,int &return_value) const{
 	if (info < 0) {
 		throw std::runtime_error("Argument " + std::to_string(-info) + " had an illegal value.");
 	} else if (info > 0) {
+		delete[] LUMatrix;
 		return_value = -1;
 		mat emptyMat;
 		return emptyMat;
@@ -1532,6 +1533,9 @@ mat mat::luNaive(int *pivot, int & return_value) const {
 
 
 	mat result;
+	if (LU == nullptr) {
+		return result;
+	}
 	result.matrix = LU;
 	result.ncols = ncols;
 	result.nrows = nrows;
-- 
2.43.0


From a01eb69a7be7d1ef66495806bea5a23ac758a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 04/64] fix: mat::readFromCSV must reject partly numeric
 entries and keep the matrix when the file is invalid

---
 src/LinearAlgebra/matrix.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index e97cf79..f82eefc 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1015,7 +1015,16 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 		std::vector<double> row;
 
 		while (std::getline(ss, value, ',')) {
-			row.push_back(std::stod(value));
+			size_t end = 0;
+			double number = std::stod(value, &end);
+			if (value.find_first_not_of(" \t\r", end) != std::string::npos) {
+				throw std::invalid_argument("Non-numeric entry '" + value + "' in file: " + filename);
+			}
+			row.push_back(number);
+		}
+
+		if (!data.empty() && row.size() != data[0].size()) {
+			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(data.size()));
 		}
 
 		data.push_back(row);
@@ -1037,9 +1046,6 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 
 	// Fill the matrix with data from the vector
 	for (unsigned int i = 0; i < nrows; ++i) {
-		if (data[i].size() != static_cast<size_t>(ncols)) {
-			throw std::runtime_error("Inconsistent number of columns in row " + std::to_string(i));
-		}
 		for (unsigned int j = 0; j < ncols; ++j) {
 			matrix[j * nrows + i] = data[i][j];  // Column-major order
 		}
-- 
2.43.0


From 89be6894805823352c4805d229f8482e5576261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 05/64] fix: vec::readFromCSV must reject lines with trailing
 characters

---
 src/LinearAlgebra/vector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index b2818f0..ab087b3 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -716,7 +716,8 @@ void vec::readFromCSV(const std::string& filename) {
 	while (std::getline(inFile, line)) {
 		std::istringstream ss(line);
 		double value;
-		if (!(ss >> value)) {
+		std::string rest;
+		if (!(ss >> value) || (ss >> rest)) {
 			throw std::runtime_error("Invalid data in CSV file.");
 		}
 		tempData.push_back(value);
-- 
2.43.0


From 7110090e00b5545268cd2a5b68413dd750660063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 06/64] fix: mat::readFromCSV must reject a file with blank
 lines only

---
 src/LinearAlgebra/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/matrix.cpp b/src/LinearAlgebra/matrix.cpp
index f82eefc..64066a5 100644
--- a/src/LinearAlgebra/matrix.cpp
+++ b/src/LinearAlgebra/matrix.cpp
@@ -1032,7 +1032,7 @@ void mat::readFromCSV(const std::string& filename, bool hasHeader) {
 
 	file.close();
 
-	if (data.empty()) {
+	if (data.empty() || data[0].empty()) {
 		throw std::runtime_error("No data found in file: " + filename);
 	}
 
-- 
2.43.0


From 64b3e47ba546743f658475820539a7ba3faa7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 07/64] fix: appending to a CSV file without final newline
 merged two rows

---
 src/LinearAlgebra/vector.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index ab087b3..20a146a 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -647,6 +647,7 @@ vec vec::unitVector(NormType type) const {
 
 
 void vec::appendToCSV(const std::string& filename, int precision) const {
+    bool isNewLineMissing = false;
     // Check if the CSV file exists and has the expected number of columns
     std::ifstream inFile(filename);
     if (inFile.is_open()) {
@@ -666,6 +667,14 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
                 throw std::runtime_error("Size of vector does not match the number of columns in the CSV file.");
             }
         }
+
+        // A last line without newline must not be merged with the new row
+        inFile.clear();
+        inFile.seekg(0, std::ios::end);
+        if (inFile.tellg() > 0) {
+            inFile.seekg(-1, std::ios::end);
+            isNewLineMissing = (inFile.get() != '\n');
+        }
         inFile.close();
     }
 
@@ -678,6 +687,10 @@ void vec::appendToCSV(const std::string& filename, int precision) const {
     // Set precision for floating-point output
     outFile << std::fixed << std::setprecision(precision);
 
+    if (isNewLineMissing) {
+        outFile << "\n";
+    }
+
     // Append vector data as a new row
     for (unsigned int i = 0; i < size; ++i) {
         outFile << data[i];
-- 
2.43.0


From 264cb1dae34368d35574d775017f8ff17ad70876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 08/64] fix: Bounds must reject NaN and unequal sizes and keep
 the old bounds when new ones are invalid

---
 src/Bounds/bounds.cpp | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index 6a83dcb..f0965bf 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -67,7 +67,7 @@ void Bounds::setDimension(unsigned int value){
 
 void Bounds::setBounds(double lowerBound, double upperBound) {
 
-	if (lowerBound >= upperBound) {
+	if (!(lowerBound < upperBound)) {
 		throw std::invalid_argument("Upper bound must be greater than lower bound.");
 	}
 	if (dimension<=0) {
@@ -86,22 +86,12 @@ void Bounds::setBounds(double lowerBound, double upperBound) {
 
 void Bounds::setBounds(std::vector<double> lb, std::vector<double> ub){
 
-	unsigned int size = lb.size();
-	lowerBounds.resize(size);
-	upperBounds.resize(size);
+	vec lowerBoundsInput;
+	lowerBoundsInput.fromStdVector(lb);
+	vec upperBoundsInput;
+	upperBoundsInput.fromStdVector(ub);
 
-	for (unsigned int i = 0; i < size; ++i) {
-		lowerBounds(i) = lb[i];
-		upperBounds(i) = ub[i];
-	}
-
-	dimension = size;
-
-	if (!checkBounds()) {
-		throw std::invalid_argument("Invalid bounds: each lower bound must be less than the corresponding upper bound.");
-	}
-
-	ifBoundsAreSet = true;
+	setBounds(lowerBoundsInput, upperBoundsInput);
 }
 
 
@@ -113,13 +103,15 @@ void Bounds::setBounds(vec lowerBoundsInput, vec upperBoundsInput) {
 		throw std::invalid_argument("Lower bounds and upper bounds must have the same size.");
 	}
 
+	for (unsigned int i = 0; i < lowerBoundsInput.getSize(); ++i) {
+		if (!(lowerBoundsInput(i) < upperBoundsInput(i))) {
+			throw std::invalid_argument("Invalid bounds: lower bound must be less than upper bound for all dimensions.");
+		}
+	}
+
 	lowerBounds = lowerBoundsInput;
 	upperBounds = upperBoundsInput;
-
 	dimension = lowerBounds.getSize();
-	if (!checkBounds()) {
-		throw std::invalid_argument("Invalid bounds: lower bound must be less than upper bound for all dimensions.");
-	}
 	ifBoundsAreSet = true;
 }
 
@@ -146,7 +138,7 @@ bool Bounds::checkIfBoundsAreValid(void) const{
 	}
 
 	for(unsigned int i=0; i<dimension; i++){
-		if(lowerBounds(i) >= upperBounds(i) ) {
+		if(!(lowerBounds(i) < upperBounds(i))) {
 			lowerBounds.print("lowerBounds");
 			upperBounds.print("upperBounds");
 			return false;
@@ -162,7 +154,7 @@ bool Bounds::checkBounds(void) const{
 	}
 
 	for(unsigned int i=0; i<dimension; i++){
-		if(lowerBounds(i) >= upperBounds(i) ) {
+		if(!(lowerBounds(i) < upperBounds(i))) {
 			return false;
 		}
 	}
-- 
2.43.0


From 87ac5b4c9945ad7892e871278b9c851b216a0a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 09/64] fix: constraint sample with tangent used the direction
 row of the design's ID

---
 src/Design/design.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Design/design.cpp b/src/Design/design.cpp
index 2370ef8..7145eb2 100644
--- a/src/Design/design.cpp
+++ b/src/Design/design.cpp
@@ -264,7 +264,7 @@ vec Design::constructSampleConstraintWithTangent(unsigned int constraintID) cons
 	//	copyVectorFirstKElements(sample,designParameters, dimension);
 	sample(dimension) = constraintTrueValues(constraintID);
 	sample(dimension+1) = constraintTangent(constraintID);
-	vec direction = constraintDifferentiationDirectionsMatrix.getRow(ID);
+	vec direction = constraintDifferentiationDirectionsMatrix.getRow(constraintID);
 
 	for(unsigned int i=0; i<dimension; i++){
 		sample(dimension+2+i) = direction(i);
-- 
2.43.0


From 1f1fa7b5ec6f951b348e80e62d63b99d59acf646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 10/64] fix: the Bounds constructor must reject vectors of
 unequal size

---
 src/Bounds/bounds.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Bounds/bounds.cpp b/src/Bounds/bounds.cpp
index f0965bf..871c160 100644
--- a/src/Bounds/bounds.cpp
+++ b/src/Bounds/bounds.cpp
@@ -37,6 +37,10 @@ Bounds::Bounds(std::vector<double> lb, std::vector<double> ub) {
 
 Bounds::Bounds(vec lb, vec ub){
 
+	if (lb.getSize() != ub.getSize()) {
+		throw std::invalid_argument("Lower and upper bounds must have the same size.");
+	}
+
 	lowerBounds = lb;
 	upperBounds = ub;
 	dimension = lb.getSize();
-- 
2.43.0


From aff5f955539dddf39c9b33feff3d8f0af1c3c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 11/64] fix: extremes of the EA population for negative values
 and after a reset

The maximum started from the smallest positive double, and reset() and readFromCSV()
kept the extremes of individuals that were gone.
---
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 4 ++--
 src/InternalOptimizers/ea_population.cpp         | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 4a15939..1aad77e 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -18,8 +18,8 @@ private:
 
 	std::vector<EAIndividual> population;
 
-	double populationMinimum = std::numeric_limits<double>::max();
-	double populationMaximum = std::numeric_limits<double>::min();
+	double populationMinimum = std::numeric_limits<double>::infinity();
+	double populationMaximum = -std::numeric_limits<double>::infinity();
 	unsigned int idPopulationMinimum = 0;
 	unsigned int idPopulationMaximum = 0;
 	unsigned int dimension = 0;
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 36e8487..315f4b6 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -174,6 +174,7 @@ void EAPopulation::print(void) const {
 void EAPopulation::reset(void){
 
 	population.clear();
+	updatePopulationMinAndMax();
 
 }
 
@@ -249,7 +250,7 @@ void EAPopulation::readFromCSV(const std::string& filename) {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
-	population.clear();  // Clear any existing data
+	reset();  // Clear any existing data
 
 	std::string line;
 
@@ -347,8 +348,8 @@ void EAPopulation::updateMinAndMaxIfNecessary(double J, unsigned int id) {
 
 void EAPopulation::updatePopulationMinAndMax(void){
 
-	populationMaximum =  std::numeric_limits<double>::min();;
-	populationMinimum =  std::numeric_limits<double>::max();;
+	populationMaximum = -std::numeric_limits<double>::infinity();
+	populationMinimum =  std::numeric_limits<double>::infinity();
 	for(auto it = std::begin(population); it != std::end(population); ++it) {
 
 
-- 
2.43.0


From e246940446e80d1a46e34a8b340973c24fce0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 12/64] fix: individuals of the EA optimizer must have distinct
 identifiers

The first child got the identifier of the last initial individual, and the identifiers
restarted from zero after a warm start; removing by identifier then removed the wrong one.
---
 src/InternalOptimizers/INCLUDE/ea_optimizer.hpp |  1 +
 src/InternalOptimizers/ea_optimizer.cpp         | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
index a793aef..271801a 100644
--- a/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_optimizer.hpp
@@ -38,6 +38,7 @@ private:
 	unsigned int sizeOfInitialPopulation = 0;
 
 	unsigned int totalNumberOfGeneratedIndividuals = 0;
+	unsigned int lastIndividualId = 0;
 	unsigned int totalNumberOfCrossOvers = 0;
 
 
diff --git a/src/InternalOptimizers/ea_optimizer.cpp b/src/InternalOptimizers/ea_optimizer.cpp
index a0ddf54..82799d6 100644
--- a/src/InternalOptimizers/ea_optimizer.cpp
+++ b/src/InternalOptimizers/ea_optimizer.cpp
@@ -105,8 +105,8 @@ EAIndividual  EAOptimizer::generateRandomIndividual(void){
 
 	//	output.printMessage("x", randomGenes);
 	newIndividual.initializeGenes(randomGenes);
-	unsigned int id = ++totalNumberOfGeneratedIndividuals;
-	newIndividual.setId(id);
+	++totalNumberOfGeneratedIndividuals;
+	newIndividual.setId(++lastIndividualId);
 
 
 	callObjectiveFunction(newIndividual);
@@ -292,7 +292,7 @@ EAIndividual  EAOptimizer::generateIndividualByReproduction(std::pair<EAIndividu
 	vec newGenes =  crossOver(parents);
 
 	child.setGenes(newGenes);
-	child.setId(totalNumberOfGeneratedIndividuals);
+	child.setId(++lastIndividualId);
 	++totalNumberOfGeneratedIndividuals;
 	return child;
 
@@ -550,6 +550,10 @@ void EAOptimizer::readWarmRestartFile() {
 
 	try {
 		population.readFromCSV(filenameWarmStart);
+		for (unsigned int i = 0; i < population.getSize(); ++i) {
+			lastIndividualId = std::max(lastIndividualId, population.getIdOftheIndividual(i));
+		}
+		population.updatePopulationProperties();
 		ifPopulationIsInitialized = true;  // Set the flag after successful read
 	} catch (const std::exception& e) {
 		// Handle exceptions from readFromCSV
-- 
2.43.0


From 3bd5ff25c51a5abde0f016a49850b5f35cb20af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 13/64] fix: fitness of the EA population for offset, strongly
 scaled and constant objectives

The coefficients of the quadratic came from the inverse of a Vandermonde-like matrix of
the raw objective values, which loses all accuracy (or overflows) for values far from
zero, and a constant objective threw. The same quadratic is evaluated directly.
---
 .../INCLUDE/ea_population.hpp                 |  1 -
 src/InternalOptimizers/ea_population.cpp      | 88 ++++---------------
 2 files changed, 15 insertions(+), 74 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 1aad77e..2c985c9 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -27,7 +27,6 @@ private:
 	void updateMinAndMaxIfNecessary(double J, unsigned int id);
 	std::string polynomialForFitnessDistrubution = "quadratic";
 
-	vec findPolynomialCoefficientsForQuadraticFitnessDistribution(void) const;
 
 	void updateFitnessValuesLinear();
 	void updateFitnessValuesQuadratic();
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 315f4b6..3f60749 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -404,17 +404,25 @@ void EAPopulation::updateFitnessValuesLinear() {
 	}
 }
 
+/* Here we assume a quadratic function between fitness and objective function values.
+ *
+ * fitness(populationMaximum) = a value close but not equal to zero, with zero derivative
+ * fitness(populationMinimum) = 1.0
+ *
+ */
+
 void EAPopulation::updateFitnessValuesQuadratic() {
 
-	checkIfAllObjectiveFunctionValuesAreZero();
+	const double worstFitnessValue = 0.01;
 
-	vec coefficients =
-			findPolynomialCoefficientsForQuadraticFitnessDistribution();
+	const double range = populationMaximum - populationMinimum;
 	for (auto it = std::begin(population); it != std::end(population); ++it) {
-		double x = it->getObjectiveFunctionValue();
-		double fitnessValue = coefficients(0) * x * x + coefficients(1) * x
-				+ coefficients(2);
-		if(fitnessValue <= 0.0){
+		double fitnessValue = 1.0;
+		if(range > 0.0){
+			double t = (populationMaximum - it->getObjectiveFunctionValue())/range;
+			fitnessValue = worstFitnessValue + (1.0 - worstFitnessValue)*t*t;
+		}
+		if(!(fitnessValue > 0.0)){
 			print();
 			std::cerr<< "WARNING: fitness value = " << fitnessValue << "\n";
 			throw std::runtime_error("EAPopulation::updateFitnessValuesQuadratic: invalid fitness value");
@@ -446,72 +454,6 @@ void EAPopulation::updateFitnessValues(void){
 }
 
 
-/* Here we assume a quadratic function between fitness and objective function values.
- *
- *
- * fitness(J) = a*x*x + b*x + c
- *
- * J(populationMaximum)  = aValueCloseButNotEqualToZero
- * J(populationMinimum)  = 1.0
- *
- */
-
-vec EAPopulation::findPolynomialCoefficientsForQuadraticFitnessDistribution() const {
-	vec coefficients(3);
-	mat A(3,3);
-	double aValueCloseButNotEqualToZero = 0.01;
-
-	/*
-	 * fitness = a*x*x + b*x + c
-	 *
-	 * fitness(min) = 1 (best fitness)
-	 * fitness(max) = 0.001 (worst fitness)
-	 * dfitness/dx = 2*a*x + b  = 0
-	 *
-	 * a * populationMinimum * populationMinimum + b*populationMinimum + c = 1
-	 * a * populationMaximum * populationMaximum + b*populationMaximum + c = aValueCloseButNotEqualToZero
-	 *
-	 * derivative at populationMaximum = 0
-	 *
-	 *
-	 * */
-
-//	std::cout<<"populationMinimum = " << populationMinimum << "\n";
-//	std::cout<<"populationMaximum = " << populationMaximum << "\n";
-
-	A(0,0) = populationMinimum * populationMinimum;
-	A(0,1) = populationMinimum;
-	A(0,2) = 1.0;
-
-	A(1,0) = populationMaximum * populationMaximum;
-	A(1,1) = populationMaximum;
-	A(1,2) = 1.0;
-
-	A(2,0) = 2.0 * populationMaximum;
-	A(2,1) = 1.0;
-	A(2,2) = 0.0;
-
-	vec rhs(3);
-	rhs(0) = 1.0;
-	rhs(1) = aValueCloseButNotEqualToZero;
-	rhs(2) = 0.0;
-
-	mat A_inv = A.invert();
-	coefficients = A_inv.matVecProduct(rhs);
-
-//	double f1 = coefficients(0)*populationMinimum * populationMinimum + coefficients(1) * populationMinimum + coefficients(2);
-//	double f2 = coefficients(0)*populationMaximum * populationMaximum + coefficients(1) * populationMaximum + coefficients(2);
-//	double f3 = 2*coefficients(0)*populationMaximum + coefficients(1);
-//
-//	std::cout<<"f1 = " << f1 << "\n";
-//	std::cout<<"f2 = " << f2 << "\n";
-//	std::cout<<"f3 = " << f3 << "\n";
-
-	return coefficients;
-}
-
-
-
 void EAPopulation::updateReproductionProbabilities(void){
 
 	double sumFitness = 0.0;
-- 
2.43.0


From 217f020e952999e8119a18fbf8e6f4362007b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 14/64] fix: the best individual of the EA population must not
 be removed

With ties among the best fitness values (also by rounding) the quantile threshold did not
protect it.
---
 src/InternalOptimizers/ea_population.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index 3f60749..efad473 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -494,7 +494,7 @@ void EAPopulation::updateDeathProbabilities(void){
 
 	for(i=0; i<getSize(); i++) {
 
-		if(fitnessValues(i) > best10PercentThreshold){
+		if(fitnessValues(i) > best10PercentThreshold || getIdOftheIndividual(i) == idPopulationMinimum){
 			oneOverFitness(i) = 0.0;
 		}
 		else{
-- 
2.43.0


From 56297a9daaef11ac05774135e159c903e4fe032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 15/64] fix: data race on the random number generators of the
 EA classes

The static generators were shared by the threads of a parallel model training.
---
 src/InternalOptimizers/INCLUDE/ea_individual.hpp | 2 +-
 src/InternalOptimizers/INCLUDE/ea_population.hpp | 2 +-
 src/InternalOptimizers/ea_individual.cpp         | 2 +-
 src/InternalOptimizers/ea_population.cpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/InternalOptimizers/INCLUDE/ea_individual.hpp b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
index f48f5e7..68cba32 100644
--- a/src/InternalOptimizers/INCLUDE/ea_individual.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_individual.hpp
@@ -22,7 +22,7 @@ private:
 	unsigned int dimension = 0;
 	vec genes;
 
-	static std::mt19937 rng;
+	static thread_local std::mt19937 rng;
 
 public:
 
diff --git a/src/InternalOptimizers/INCLUDE/ea_population.hpp b/src/InternalOptimizers/INCLUDE/ea_population.hpp
index 2c985c9..5f5b8aa 100644
--- a/src/InternalOptimizers/INCLUDE/ea_population.hpp
+++ b/src/InternalOptimizers/INCLUDE/ea_population.hpp
@@ -14,7 +14,7 @@ class EAPopulation{
 
 private:
 
-	static std::mt19937 gen;
+	static thread_local std::mt19937 gen;
 
 	std::vector<EAIndividual> population;
 
diff --git a/src/InternalOptimizers/ea_individual.cpp b/src/InternalOptimizers/ea_individual.cpp
index e5b5949..a613c2b 100644
--- a/src/InternalOptimizers/ea_individual.cpp
+++ b/src/InternalOptimizers/ea_individual.cpp
@@ -9,7 +9,7 @@ using namespace std;
 
 namespace Rodop{
 
-std::mt19937 EAIndividual::rng(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAIndividual::rng(std::random_device{}());
 
 
 EAIndividual::EAIndividual(){}
diff --git a/src/InternalOptimizers/ea_population.cpp b/src/InternalOptimizers/ea_population.cpp
index efad473..40fdec2 100644
--- a/src/InternalOptimizers/ea_population.cpp
+++ b/src/InternalOptimizers/ea_population.cpp
@@ -13,7 +13,7 @@
 using namespace std;
 namespace Rodop{
 
-std::mt19937 EAPopulation::gen(std::chrono::system_clock::now().time_since_epoch().count());
+thread_local std::mt19937 EAPopulation::gen(std::random_device{}());
 
 void EAPopulation::setDimension(unsigned int value){
 
-- 
2.43.0


From c22bdcf40e38bea3138112630caab0a6a9840962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 16/64] fix: GeneralPurposeOptimizer must reject reversed
 bounds in all its setters

---
 src/InternalOptimizers/general_purpose_optimizer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/InternalOptimizers/general_purpose_optimizer.cpp b/src/InternalOptimizers/general_purpose_optimizer.cpp
index a9298c2..dc348f5 100644
--- a/src/InternalOptimizers/general_purpose_optimizer.cpp
+++ b/src/InternalOptimizers/general_purpose_optimizer.cpp
@@ -22,6 +22,9 @@ void GeneralPurposeOptimizer::setBounds(double lb, double ub) {
     if (dimension == 0) {
         throw std::invalid_argument("Dimension must be specified first.");
     }
+    if (!(ub > lb)) {
+        throw std::invalid_argument("Lower bound must be smaller than upper bound.");
+    }
 
     lowerBounds.resize(dimension);
     lowerBounds.fill(lb);
@@ -38,6 +41,11 @@ void GeneralPurposeOptimizer::setBounds(std::vector<double> lb, std::vector<doub
     if (lb.size() != dimension) {
         throw std::invalid_argument("Lower bound and upper bound vectors must match the dimension size.");
     }
+    for (size_t i = 0; i < lb.size(); ++i) {
+        if (!(ub[i] > lb[i])) {
+            throw std::invalid_argument("Lower bounds must be smaller than upper bounds.");
+        }
+    }
 
     lowerBounds.fromStdVector(lb);
     upperBounds.fromStdVector(ub);
-- 
2.43.0


From d31a077ce0c62144cfdb98067120e33093c6d2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 17/64] fix: reading training data again must discard the old
 validation samples

---
 src/SurrogateModels/surrogate_model_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 8d727d1..dead6e5 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -120,6 +120,9 @@ void SurrogateModelData::readData(string inputFilename){
 
 	rawData.readFromCSV(inputFilename);
 	rawDataWork = rawData;
+	rawDataValidation.reset();
+	numberOfValidationSamples = 0;
+	indicesForValidationData.clear();
 
 	if(ifDisplay){
 		rawData.print("rawData");
@@ -176,6 +179,8 @@ void SurrogateModelData::revertBackToFullData() {
 
 	numberOfValidationSamples = 0;
 	rawDataWork = rawData;
+	rawDataValidation.reset();
+	indicesForValidationData.clear();
 	numberOfSamples = rawData.getNRows();
 
 	ModelLogger::getInstance().log(INFO, "Number of training samples: " + std::to_string(numberOfSamples) );
-- 
2.43.0


From 268d4498cd47af41e80cd1726a8b7b4d628e4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 18/64] fix: test data without function values read after test
 data with them

The flag of the earlier file stayed on (reading a column that does not exist), and the new
data counted as normalized.
---
 src/SurrogateModels/surrogate_model.cpp      | 1 +
 src/SurrogateModels/surrogate_model_data.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a4a3d23..8da5612 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -131,6 +131,7 @@ void SurrogateModel::readDataTest(void){
 	data.readDataTest(filenameDataInputTest);
 
 	ifTestDataIsRead = true;
+	ifNormalizedTestData = false;
 }
 
 unsigned int SurrogateModel::countHowManySamplesAreWithinBounds(vec lb, vec ub){
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index dead6e5..a4478bc 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -234,6 +234,8 @@ void SurrogateModelData::readDataTest(string inputFilename) {
 	} else if (XrawTest.getNCols() == dimension) {
 		// Data contains only input values
 		XTest = XrawTest;
+		yTest.reset();
+		ifTestDataHasFunctionValues = false;
 	} else {
 		// Invalid number of columns
 		throw std::runtime_error("Problem with test data (CSV format): incorrect number of columns in file: " + inputFilename);
-- 
2.43.0


From f40845334f32285830358cf6b1e49aec348a481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 19/64] fix: saving the surrogate test results twice threw
 because the header accumulated

---
 src/SurrogateModels/surrogate_model.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 8da5612..0f71c9c 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -258,6 +258,7 @@ double SurrogateModel::calculateOutSampleError(void){
 void SurrogateModel::writeFileHeaderForTestResults() {
 
 	unsigned int dim = data.getDimension();
+	testResultsFileHeader.clear();
 	for (unsigned int i = 0; i < dim; i++) {
 		string variableName = "x" + std::to_string(i + 1);
 		testResultsFileHeader.push_back(variableName);
-- 
2.43.0


From 3526299862bbc2ae9b1af7f3d96ab9ef7555eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 20/64] fix: in-sample error compared training points with
 values of other samples when data is split

---
 src/SurrogateModels/INCLUDE/surrogate_model_data.hpp | 1 +
 src/SurrogateModels/surrogate_model.cpp              | 3 +--
 src/SurrogateModels/surrogate_model_data.cpp         | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
index 6023ce2..508d9c0 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_data.hpp
@@ -156,6 +156,7 @@ public:
 	vec getRowXRawTest(unsigned int index) const;
 
 	vec getOutputVector(void) const;
+	vec getOutputVectorRaw(void) const;
 	void setOutputVector(vec);
 
 	vec getOutputVectorTest(void) const;
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index 0f71c9c..a0d880d 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -200,8 +200,7 @@ double SurrogateModel::calculateInSampleError(string mode) const{
 	ModelLogger::getInstance().log(INFO, "Surrogate model: Calculating in sample error using " + std::to_string(data.getNumberOfSamples()) + " samples");
 
 	vec fTildeValues(data.getNumberOfSamples());
-	mat rawData = data.getRawData();
-	vec fExact = rawData.getCol(dimension);
+	vec fExact = data.getOutputVectorRaw();
 
 	mat X = data.getInputMatrix();
 	double squaredError = 0.0;
diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index a4478bc..c88af4a 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -562,6 +562,12 @@ vec SurrogateModelData::getOutputVector(void) const{
 
 }
 
+vec SurrogateModelData::getOutputVectorRaw(void) const{
+
+	return rawDataWork.getCol(dimension);
+
+}
+
 vec SurrogateModelData::getOutputVectorValidation(void) const{
 
 	return yValidation;
-- 
2.43.0


From ded02561cc9c9597f4f5a8a6a3f0082f4bfe7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 21/64] fix: training without (remaining) validation samples
 terminated the process

A validation ratio of zero or one that selects no sample, and each training after the
first one with validation samples, threw out of the parallel region.
---
 src/SurrogateModels/kriging_training.cpp | 5 +++++
 src/SurrogateModels/surrogate_model.cpp  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 72ee7f1..4776c76 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -706,6 +706,11 @@ void KrigingModel::train() {
 			setObjectiveFunctionTypeForModelTraining(VALIDATION_ERROR);
 		}
 
+		if(objectiveFunctionType == VALIDATION_ERROR && data.getNumberOfSamplesValidation() == 0){
+			ModelLogger::getInstance().log(WARNING, "KrigingModel::train: There are no validation samples, training is performed using MLE.");
+			setObjectiveFunctionTypeForModelTraining(MAXIMUM_LIKELIHOOD);
+		}
+
 
 		// Setting up bounds for hyperparameter optimization
 		vec lb(2 * dimension);
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index a0d880d..be82072 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -75,7 +75,7 @@ void SurrogateModel::setReadWarmStartFileFlag(bool flag){
 
 void SurrogateModel::setRatioValidationSamples(double val){
 	data.setValidationRatio(val);
-	ifHasValidationSamples = true;
+	ifHasValidationSamples = (val > 0.0);
 }
 
 
-- 
2.43.0


From 0b015eedb9cc2588788309644a05e4e35b9c763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 22/64] fix: hyperparameters with a failed factorization had
 the best possible validation error

---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 4776c76..bd1639a 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -638,7 +638,7 @@ double KrigingModel::calculateValidationErrorForGivenHyperparameters(vec hyperPa
 
 	// Check if the factorization of the correlation matrix was successful
 	if (!linearSystemCorrelationMatrix.isFactorizationDone()) {
-		return std::numeric_limits<double>::lowest(); // Return a large negative value if factorization fails
+		return std::numeric_limits<double>::max(); // Return a large value if factorization fails
 	}
 
 	return calculateValidationError();
-- 
2.43.0


From 226a9c773f3dc08f8a4d2ef2bbec3f9c66e84da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 23/64] fix: training threw when the likelihood is not defined
 for any hyperparameters

This is the case for constant function values, for which the process variance vanishes.
---
 src/SurrogateModels/kriging_training.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index bd1639a..5057e1e 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -773,7 +773,7 @@ void KrigingModel::train() {
 			{
 				double bestSolutionLikelihood = threadBestSolution.getObjectiveFunctionValue();
 				ModelLogger::getInstance().log(INFO, "Best likelihood at local thread = " + std::to_string(bestSolutionLikelihood));
-				if (bestSolutionLikelihood < globalBestError) {
+				if (bestSolution.isEmpty() || bestSolutionLikelihood < globalBestError) {
 					bestSolution = optimizedHyperParameters;
 					globalBestError = bestSolutionLikelihood;
 				}
-- 
2.43.0


From 710c0b0ca0c35366413be4e68f1b93b6fb766e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 24/64] fix: the number of training iterations shrank with
 every multi-threaded training

---
 src/SurrogateModels/kriging_training.cpp | 6 +++---
 src/SurrogateModels/surrogate_model.cpp  | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 5057e1e..e382869 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -739,8 +739,8 @@ void KrigingModel::train() {
 		ModelLogger::getInstance().log(INFO, "Number of generations = " + std::to_string(numberOfGenerations));
 		ModelLogger::getInstance().log(INFO, "Number of threads = " + std::to_string(numberOfThreads));
 
-		numberOfTrainingIterations = numberOfTrainingIterations / numberOfThreads;
-		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfTrainingIterations));
+		const unsigned int numberOfIterationsPerThread = std::max(numberOfTrainingIterations / numberOfThreads, 1u);
+		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfIterationsPerThread));
 		vec bestSolution;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
@@ -757,7 +757,7 @@ void KrigingModel::train() {
 
 			parameterOptimizer.setInitialPopulationSize(initialPopulationSize);
 			parameterOptimizer.setMutationProbability(0.1);
-			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfTrainingIterations);
+			parameterOptimizer.setMaximumNumberOfGeneratedIndividuals(numberOfIterationsPerThread);
 
 
 			parameterOptimizer.setNumberOfGenerations(numberOfGenerations);
diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index be82072..eaa32a9 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -36,6 +36,9 @@ void SurrogateModel::setDimension(unsigned int dim){
 
 void SurrogateModel::setNumberOfThreads(unsigned int n){
 
+	if(n == 0){
+		throw std::invalid_argument("SurrogateModel: Number of threads must be greater than zero.");
+	}
 	numberOfThreads = n;
 
 }
-- 
2.43.0


From e4d157e7bf50e4ca3d6c04e529aa998abce65c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 25/64] fix: vec::saveToCSV (hyperparameters, regression
 weights) must not lose accuracy

Six significant digits change the predictions of an ill-conditioned model visibly.
---
 src/LinearAlgebra/vector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LinearAlgebra/vector.cpp b/src/LinearAlgebra/vector.cpp
index 20a146a..ec457bc 100644
--- a/src/LinearAlgebra/vector.cpp
+++ b/src/LinearAlgebra/vector.cpp
@@ -709,6 +709,7 @@ void vec::saveToCSV(const std::string& filename) const {
 		throw std::runtime_error("Cannot open file: " + filename);
 	}
 
+	outFile << std::setprecision(std::numeric_limits<double>::max_digits10);
 	for (unsigned int i = 0; i < size; ++i) {
 		outFile << data[i];
 		if (i < size - 1) {
-- 
2.43.0


From fd1da4d8106b3aa13128dea722df0f3d6302dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 26/64] fix: a wrongly sized hyperparameter file must be
 reported as an error

---
 src/SurrogateModels/kriging_training.cpp  | 3 ++-
 src/SurrogateModels/linear_regression.cpp | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index e382869..40e535a 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -373,7 +373,8 @@ void KrigingModel::loadHyperParameters(void){
 	}
 	else{
 
-		ModelLogger::getInstance().log(WARNING, "Cannot load hyperparameters from the file: " + filenameHyperparameters);
+		ModelLogger::getInstance().log(ERROR, "Cannot load hyperparameters from the file: " + filenameHyperparameters);
+		throw std::runtime_error("KrigingModel: Number of entries does not match with the number of hyperparameters in the file: " + filenameHyperparameters);
 
 	}
 
diff --git a/src/SurrogateModels/linear_regression.cpp b/src/SurrogateModels/linear_regression.cpp
index 4ed19dd..df9f0ce 100644
--- a/src/SurrogateModels/linear_regression.cpp
+++ b/src/SurrogateModels/linear_regression.cpp
@@ -73,7 +73,12 @@ void LinearModel::saveHyperParameters(void) const  {
 void LinearModel::loadHyperParameters(void){
 
 	assert(!filenameHyperparameters.empty());
-	weights.readFromCSV(filenameHyperparameters);
+	vec loadBuffer;
+	loadBuffer.readFromCSV(filenameHyperparameters);
+	if(loadBuffer.getSize() != dimension + 1){
+		throw std::runtime_error("LinearModel: Number of entries does not match with the number of weights in the file: " + filenameHyperparameters);
+	}
+	weights = loadBuffer;
 
 }
 
-- 
2.43.0


From 15ae021745347fc9d3a8df92c333e09b787fb966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 27/64] fix: predictions mixed new hyperparameters with the
 fields of the old ones

---
 src/SurrogateModels/kriging_training.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 40e535a..494d8db 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -315,7 +315,9 @@ void KrigingModel::setHyperParameters(vec parameters){
 		throw std::invalid_argument("KrigingModel: size of the perameter vector does not match with number of hyperparameters.");
 	}
 	correlationFunction.setHyperParameters(parameters);
-
+	if(ifInitialized){
+		updateAuxilliaryFields();
+	}
 
 }
 
@@ -369,6 +371,9 @@ void KrigingModel::loadHyperParameters(void){
 
 		correlationFunction.setTheta(theta);
 		correlationFunction.setGamma(gamma);
+		if(ifInitialized){
+			updateAuxilliaryFields();
+		}
 
 	}
 	else{
-- 
2.43.0


From 58a32c89b40a35d62eca835d5f0b6abc829f8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 28/64] fix: Kriging variance could be slightly negative, which
 made its square root NaN

---
 src/SurrogateModels/kriging_training.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index 494d8db..e90fac7 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -606,7 +606,8 @@ void KrigingModel::interpolateWithVariance(vec xp,double *ftildeOutput,double *s
 
 	double term3 = term2 + term1;
 
-	*sSqrOutput = sigmaSquared* term3;
+	/* rounding must not lead to a negative variance */
+	*sSqrOutput = std::max(sigmaSquared* term3, 0.0);
 
 }
 
-- 
2.43.0


From a3969de3ddc2397b503df1dc52d39c8852edee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 29/64] fix: a sample that cannot be stored must not be lost
 silently

---
 src/SurrogateModels/kriging_training.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index e90fac7..cd71898 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -439,6 +439,7 @@ void KrigingModel::addNewSampleToData(vec newsample) {
 		} catch (const std::exception& e) {
 			// Log the error if writing to CSV or updating the model fails
 			ModelLogger::getInstance().log(ERROR, std::string("Failed to add new sample: ") + e.what());
+			throw;
 		}
 	} else {
 		// Log a warning if the new sample is too close to an existing one
-- 
2.43.0


From 0cca6d4c25032b44eb2bf97ae0e27133872d3456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 30/64] fix: the surrogate model tester dereferenced an unset
 model for incomplete settings

The checks were assertions (off in this library), the range check of the validation ratio
could never fire, and ordinary Kriging kept the trend of an earlier universal Kriging.
---
 .../INCLUDE/surrogate_model_tester.hpp        |  5 ++--
 .../surrogate_model_tester.cpp                | 28 ++++++++++++++++---
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp b/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
index 8f9c058..fcc5318 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model_tester.hpp
@@ -27,9 +27,9 @@ private:
 	KrigingModel krigingModel;
 
 
-	SurrogateModel *surrogateModel;
+	SurrogateModel *surrogateModel = nullptr;
 
-	SURROGATE_MODEL surrogateModelType;
+	SURROGATE_MODEL surrogateModelType = NONE;
 
 	unsigned int numberOfTrainingIterations = 10000;
 
@@ -39,6 +39,7 @@ private:
 
 	void checkBoxConstraints();
 	void checkIfSurrogateModelIsSpecified();
+	void checkIfSurrogateModelIsBound();
 	void checkFilename(const std::string& filename);
 
 public:
diff --git a/src/SurrogateModels/surrogate_model_tester.cpp b/src/SurrogateModels/surrogate_model_tester.cpp
index 66c3eba..d31e200 100644
--- a/src/SurrogateModels/surrogate_model_tester.cpp
+++ b/src/SurrogateModels/surrogate_model_tester.cpp
@@ -38,10 +38,11 @@ void SurrogateModelTester::setSurrogateModel(SURROGATE_MODEL modelType){
 
 void SurrogateModelTester::setRatioValidationSamples(double value){
 
-	if(value<0 && value > 1.0){
+	if(!(value >= 0.0 && value <= 1.0)){
 		ModelLogger::getInstance().log(ERROR, "Model Tester: Validation samples ration is not valid.");
 		throw std::invalid_argument("Model Tester: Validation samples ration is not valid.");
 	}
+	checkIfSurrogateModelIsBound();
 	surrogateModel->setRatioValidationSamples(value);
 }
 
@@ -54,10 +55,21 @@ void SurrogateModelTester::checkIfSurrogateModelIsSpecified() {
 	}
 }
 
+void SurrogateModelTester::checkIfSurrogateModelIsBound() {
+	if (!ifbindSurrogateModelisDone) {
+		ModelLogger::getInstance().log(ERROR, "Model Tester: Surrogate model must be bound first.");
+		throw std::runtime_error("Model Tester: Surrogate model must be bound first.");
+	}
+}
+
 void SurrogateModelTester::bindSurrogateModels(void){
 
 	checkIfSurrogateModelIsSpecified();
 
+	if(surrogateModelType != LINEAR_REGRESSION && surrogateModelType != ORDINARY_KRIGING && surrogateModelType != UNIVERSAL_KRIGING){
+		throw std::invalid_argument("Model Tester: Surrogate model type is not supported.");
+	}
+
 	if(!ifMultiLevel){
 
 		if(surrogateModelType == LINEAR_REGRESSION ){
@@ -66,6 +78,7 @@ void SurrogateModelTester::bindSurrogateModels(void){
 		}
 		if(surrogateModelType == ORDINARY_KRIGING){
 			ModelLogger::getInstance().log(INFO, "Model Tester: Ordinary Kriging...");
+			krigingModel.setLinearRegressionOff();
 			surrogateModel = &krigingModel;
 		}
 		if(surrogateModelType == UNIVERSAL_KRIGING){
@@ -104,9 +117,16 @@ void SurrogateModelTester::performSurrogateModelTest(void){
 
 	checkBoxConstraints();
 
-	assert(ifbindSurrogateModelisDone);
-	assert(!name.empty());
-	assert(dimension>0);
+	checkIfSurrogateModelIsBound();
+	if(name.empty()){
+		throw std::runtime_error("Model Tester: Name must be set first.");
+	}
+	if(dimension == 0){
+		throw std::runtime_error("Model Tester: Dimension must be set first.");
+	}
+	if(boxConstraints.getDimension() != dimension){
+		throw std::runtime_error("Model Tester: Dimension of the box constraints does not match.");
+	}
 	checkFilename(fileNameTraingData);
 	checkFilename(fileNameTestData);
 
-- 
2.43.0


From 857728e54e4e3003ff67046fd161499cb62ff286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:05 +0000
Subject: [PATCH 31/64] fix: an error in a parallel training terminated the
 process instead of being reported

---
 src/SurrogateModels/kriging_training.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/SurrogateModels/kriging_training.cpp b/src/SurrogateModels/kriging_training.cpp
index cd71898..2fdd218 100644
--- a/src/SurrogateModels/kriging_training.cpp
+++ b/src/SurrogateModels/kriging_training.cpp
@@ -750,11 +750,13 @@ void KrigingModel::train() {
 		const unsigned int numberOfIterationsPerThread = std::max(numberOfTrainingIterations / numberOfThreads, 1u);
 		ModelLogger::getInstance().log(INFO, "Number of iterations per thread: " + std::to_string(numberOfIterationsPerThread));
 		vec bestSolution;
+		std::exception_ptr trainingError;
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(numberOfThreads);
 #pragma omp parallel for
 #endif
 		for (unsigned int thread = 0; thread < numberOfThreads; thread++) {
+			try {
 			KrigingHyperParameterOptimizer parameterOptimizer;
 			parameterOptimizer.objectiveFunctionType = objectiveFunctionType;
 			parameterOptimizer.setDimension(problemDimForInternalOptimization);
@@ -786,12 +788,21 @@ void KrigingModel::train() {
 					globalBestError = bestSolutionLikelihood;
 				}
 			}
+			} catch (...) {
+				/* an exception must not leave the parallel region */
+#ifdef OPENMP_SUPPORT
+#pragma omp critical
+#endif
+				trainingError = std::current_exception();
+			}
 		} /* end of for loop for training at thread level*/
 
 #ifdef OPENMP_SUPPORT
 		omp_set_num_threads(1);
 #endif
 
+		if (trainingError) std::rethrow_exception(trainingError);
+
 		// Set the best hyperparameters found
 		ModelLogger::getInstance().log(INFO, "Solution after model training");
 		ModelLogger::getInstance().log(INFO, "Theta = " + bestSolution.head(dimension).toString());
-- 
2.43.0


From 3135e039360dd15ca0b4deff7dcf9e59430eb05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 32/64] fix: use the configured name of the optimization study

---
 src/Driver/driver_xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 3e9eb5b..d68af7e 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -614,7 +614,7 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 void Driver::setNameOptimizationStudy() {
 	string name = getConfigKeyValueString(keywordsGeneral, "name");
-	if (name.empty()) {
+	if (!name.empty()) {
 		optimizationStudy.setName(name);
 	} else {
 		optimizationStudy.setName("OptimizationStudy");
-- 
2.43.0


From b982755bc9283abb08125fa858643fb8435ec920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 33/64] fix: read the number of training iterations of a
 constraint from its own section

---
 src/Driver/driver_xml.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index d68af7e..af48e73 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -318,9 +318,15 @@ void Driver::setConstraintUDF(ConstraintFunction &constraint) {
 void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constraint) {
 
 	int numberOfTrainingIterations = getConfigKeyValueInt(
-			keywordsObjectiveFunction, "number_of_training_iterations");
+			keywordsConstraintFunction, "number_of_training_iterations");
+
+	/* a constraint without own setting uses the setting of the objective function */
+	if(numberOfTrainingIterations == NONEXISTINGINTKEYWORD){
+		numberOfTrainingIterations = getConfigKeyValueInt(
+				keywordsObjectiveFunction, "number_of_training_iterations");
+	}
 
-	if(numberOfTrainingIterations != -10000000){
+	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
-- 
2.43.0


From 7049f1e674db65dd3e0d25ae7386d9c615cf0db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 34/64] fix: reject entries of the configuration file which are
 not entirely numeric

---
 src/Driver/driver_xml.cpp    |  7 ++++++-
 src/Driver/xml_functions.cpp | 29 +++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index af48e73..db9d5d8 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -4,6 +4,7 @@
 #include "./INCLUDE/string_functions.hpp"
 #include "../INCLUDE/globals.hpp"
 
+#include <cmath>
 #include <map>
 using namespace std;
 
@@ -292,7 +293,11 @@ void Driver::setConstraintValue(ConstraintDefinition &constraintDefinition) {
 	}
 	double value = 0.0;
 	try {
-		value = std::stod(constraint_value); // Attempt to convert string to double
+		size_t numberOfCharacters = 0;
+		value = std::stod(constraint_value, &numberOfCharacters); // Attempt to convert string to double
+		if (numberOfCharacters != constraint_value.length() || !std::isfinite(value)) {
+			throw std::invalid_argument("not a number");
+		}
 
 	} catch (const std::invalid_argument& e) {
 		throw std::invalid_argument("Invalid argument. Unable to convert string to double. Check configuration file");
diff --git a/src/Driver/xml_functions.cpp b/src/Driver/xml_functions.cpp
index 2577bc8..7f2854e 100644
--- a/src/Driver/xml_functions.cpp
+++ b/src/Driver/xml_functions.cpp
@@ -106,6 +106,15 @@ template void writeXmlElement(std::ofstream& file, const std::string& elementNam
 template void writeXmlElement(std::ofstream& file, const std::string& elementName, const string& value);
 
 
+static std::string trimSpaces(const std::string& text) {
+	const char* spaces = " \t\n\r\f\v";
+	size_t first = text.find_first_not_of(spaces);
+	if (first == std::string::npos) {
+		return "";
+	}
+	return text.substr(first, text.find_last_not_of(spaces) - first + 1);
+}
+
 double getDoubleValueFromXML(const std::string& xmlString, const std::string& keyword) {
 	// Find keyword position
 	size_t keywordStart = xmlString.find("<" + keyword + ">");
@@ -128,18 +137,22 @@ double getDoubleValueFromXML(const std::string& xmlString, const std::string& ke
 	// Extract substring containing value
 	std::string valueString = xmlString.substr(keywordStart + keyword.length() + 2, keywordEnd - keywordStart - keyword.length() - 2);
 
-	valueString = removeSpacesFromString(valueString);
+	valueString = trimSpaces(valueString);
 
 	double value;
+	size_t numberOfCharacters = 0;
 	try
 	{
-		value = std::stod(valueString);
+		value = std::stod(valueString, &numberOfCharacters);
 	}
 	catch (...)
 	{
 		throw std::invalid_argument("Conversion to double has failed.");
 	}
-
+	/* the complete text must be a number */
+	if (numberOfCharacters != valueString.length()) {
+		throw std::invalid_argument("Conversion to double has failed.");
+	}
 
 	return value;
 }
@@ -204,19 +217,23 @@ int getIntegerValueFromXML(const std::string& xmlString, const std::string& keyw
 	// Extract substring containing value
 	std::string valueString = xmlString.substr(keywordStart + keyword.length() + 2, keywordEnd - keywordStart - keyword.length() - 2);
 
-
+	valueString = trimSpaces(valueString);
 
 	int value;
-
+	size_t numberOfCharacters = 0;
 
 	try
 	{
-		value = std::stoi(valueString);
+		value = std::stoi(valueString, &numberOfCharacters);
 	}
 	catch (...)
 	{
 		throw std::invalid_argument("Conversion to integer has failed.");
 	}
+	/* the complete text must be a number */
+	if (numberOfCharacters != valueString.length()) {
+		throw std::invalid_argument("Conversion to integer has failed.");
+	}
 
 	return value;
 }
-- 
2.43.0


From e38dafb3fd418520dfc17df9655a091c89a38416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 35/64] fix: reject optimization parameters with missing or
 non-finite bounds or increment

---
 src/Driver/driver_xml.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index db9d5d8..585b93a 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -517,9 +517,19 @@ void Driver::readOptimizationParameters() {
 		// Log the parameter being processed
 		DriverLogger::getInstance().log(INFO, "Processing parameter: " + name + " of type: " + type);
 
+		for (const std::string bound : {"lower_bound", "upper_bound"}) {
+			if (getStringValueFromXML(param, bound).empty()) {
+				throw std::runtime_error("Driver::readOptimizationParameters: '" + bound + "' is missing for parameter: " + name);
+			}
+		}
+
 		double lb = getDoubleValueFromXML(param, "lower_bound");
 		double ub = getDoubleValueFromXML(param, "upper_bound");
 
+		if (!std::isfinite(lb) || !std::isfinite(ub)) {
+			throw std::runtime_error("Driver::readOptimizationParameters: bounds must be finite for parameter: " + name);
+		}
+
 		// Check that lower_bound is less than or equal to upper_bound
 		if (lb > ub) {
 			DriverLogger::getInstance().log(ERROR, "Invalid bounds for parameter '" + name + "': lower_bound > upper_bound.");
@@ -531,7 +541,7 @@ void Driver::readOptimizationParameters() {
 		// Special handling for discrete and int types
 		if (type == "discrete" || type == "int") {
 			// Ensure the increment is defined, greater than 0, and less than or equal to ub - lb
-			if (inc <= 0 || inc > (ub - lb)) {
+			if (getStringValueFromXML(param, "increment").empty() || !(inc > 0) || inc > (ub - lb)) {
 				DriverLogger::getInstance().log(ERROR, "Invalid increment for 'discrete' or 'int' parameter '" + name + "': increment must be > 0 and <= (upper_bound - lower_bound).");
 				throw std::runtime_error("Driver::readOptimizationParameters: Invalid increment for 'discrete' or 'int' parameter: " + name);
 			}
-- 
2.43.0


From 11f93f26b7a3acb4d38acf56c8465a2460284869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 36/64] fix: report unsupported surrogate model types instead
 of using an unbound model

---
 src/ObjectiveFunctions/objective_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9f585ee..f2a4057 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -247,6 +247,10 @@ void ObjectiveFunction::bindSurrogateModel(void){
 		throw std::runtime_error("Cannot bind with a surrogate model without proper objective function definition.");
 	}
 
+	if (definition.modelHiFi != ORDINARY_KRIGING && definition.modelHiFi != UNIVERSAL_KRIGING) {
+		throw std::runtime_error("The surrogate model type is not supported.");
+	}
+
 	bindSurrogateModelSingleFidelity();
 
 	ifSurrogateModelIsDefined = true;
-- 
2.43.0


From b85f46ea0774b21d2f3c50780c738f15ba43fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 37/64] fix: read constraint sections regardless of line breaks
 and reject unterminated ones

---
 src/Driver/driver_xml.cpp | 42 ++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 585b93a..97322c7 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -1058,43 +1058,35 @@ std::string Driver::readASegmentFromXMLFile(string keyword) const {
 
 
 std::vector<std::string> Driver::readConstraintFunctionsFromXML(void) const {
-	std::vector<std::string> constraintFunctions;
 	std::ifstream file(configFilename);
-	std::string line;
-	bool insideConstraintFunction = false;
-	std::string currentConstraintFunction;
 
 	// Check if the file was opened successfully
 	if (!file.is_open()) {
-		std::cerr << "Error opening file: " << configFilename << std::endl;
-		return constraintFunctions;
+		throw std::runtime_error("Failed to open file: " + configFilename);
 	}
 
-	// Read the file line by line
-	while (std::getline(file, line)) {
-		// Trim leading and trailing whitespaces from the line (if needed)
-		line.erase(0, line.find_first_not_of(" \t"));  // Left trim
-		line.erase(line.find_last_not_of(" \t") + 1);  // Right trim
+	std::stringstream buffer;
+	buffer << file.rdbuf();
+	const std::string text = buffer.str();
 
-		// Start of a constraint function
-		if (line.find("<constraint_function>") != std::string::npos) {
-			insideConstraintFunction = true;
-			currentConstraintFunction.clear();
-		}
+	const std::string startTag = "<constraint_function>";
+	const std::string endTag = "</constraint_function>";
 
-		// End of a constraint function
-		if (line.find("</constraint_function>") != std::string::npos) {
-			insideConstraintFunction = false;
-			constraintFunctions.push_back(currentConstraintFunction);
+	std::vector<std::string> constraintFunctions;
+	size_t pos = 0;
+	while ((pos = text.find(startTag, pos)) != std::string::npos) {
+		size_t contentStart = pos + startTag.length();
+		size_t contentEnd = text.find(endTag, contentStart);
+
+		// A section must be closed before the next one starts
+		if (contentEnd == std::string::npos || text.find(startTag, contentStart) < contentEnd) {
+			throw std::runtime_error("End tag not found for the key: constraint_function");
 		}
 
-		// Collect lines inside the constraint function block
-		if (insideConstraintFunction) {
-			currentConstraintFunction += line + "\n";  // Preserve line breaks
-		}
+		constraintFunctions.push_back(text.substr(contentStart, contentEnd - contentStart));
+		pos = contentEnd + endTag.length();
 	}
 
-	file.close();  // Close the file when done
 	return constraintFunctions;
 }
 
-- 
2.43.0


From e3de034c0c022e99aec8ec8a184c56b12f3f633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 38/64] fix: reject nonpositive numbers of threads and of
 iterations in the configuration

---
 src/Driver/driver_xml.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/Driver/driver_xml.cpp b/src/Driver/driver_xml.cpp
index 97322c7..9708287 100644
--- a/src/Driver/driver_xml.cpp
+++ b/src/Driver/driver_xml.cpp
@@ -215,6 +215,10 @@ void Driver::setObjectiveFunctionNumberOfTrainingIterations() {
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument(
+					"number_of_training_iterations must be a positive integer. Check configuration file");
+		}
 		objectiveFunction.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 	}
@@ -333,6 +337,10 @@ void Driver::setConstraintNumberOfTrainingIterations(ConstraintFunction &constra
 
 	if(numberOfTrainingIterations != NONEXISTINGINTKEYWORD){
 
+		if (numberOfTrainingIterations <= 0) {
+			throw std::invalid_argument(
+					"number_of_training_iterations must be a positive integer. Check configuration file");
+		}
 		constraint.setNumberOfTrainingIterationsForSurrogateModel(
 				numberOfTrainingIterations);
 
@@ -616,6 +624,10 @@ void Driver::setMaxNumberOfInnerIterationsOptimizationStudy(void) {
 	int maxiter = getConfigKeyValueInt(keywordsGeneral, "max_number_of_inner_iterations");
 
 	if(maxiter != -10000000){
+		if (maxiter <= 0) {
+			throw std::invalid_argument(
+					"max_number_of_inner_iterations must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setMaximumNumberOfInnerIterations(maxiter);
 	}
 
@@ -628,6 +640,10 @@ void Driver::setNumberOfThreadsOptimizationStudy(void) {
 
 	if(N != -10000000){
 
+		if (N <= 0) {
+			throw std::invalid_argument(
+					"number_of_threads must be a positive integer. Check configuration file");
+		}
 		optimizationStudy.setNumberOfThreads(N);
 	}
 
-- 
2.43.0


From a514c638d327e0b1ef84e4a4950377f84ef3d2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 39/64] fix: train the models in every iteration if requested
 and reject a zero training frequency

---
 src/Optimizers/efficient_global_optimization.cpp | 2 +-
 src/Optimizers/optimization_setter_getters.cpp   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/efficient_global_optimization.cpp b/src/Optimizers/efficient_global_optimization.cpp
index a0ad649..dfcab5b 100644
--- a/src/Optimizers/efficient_global_optimization.cpp
+++ b/src/Optimizers/efficient_global_optimization.cpp
@@ -15,7 +15,7 @@ void Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues(void)
 		printIterationNumber();
 
 
-		if(outerIterationNumber%howOftenTrainModels == 1) {
+		if((outerIterationNumber-1)%howOftenTrainModels == 0) {
 			initializeSurrogates();
 			trainSurrogates();
 		}
diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index a264f3f..d6af2c4 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -109,6 +109,9 @@ void Optimizer::setDimension(unsigned int dim){
 
 
 void Optimizer::setHowOftenTrainModels(unsigned int value){
+	if (value == 0) {
+		throw std::invalid_argument("The training frequency of the models must be greater than 0.");
+	}
 	howOftenTrainModels = value;
 }
 
-- 
2.43.0


From 8bd57f5499a0037d7472008cb71b88a2f7d52442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 40/64] fix: do not accept an output file left over from an
 earlier evaluation

---
 src/ObjectiveFunctions/objective_function.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index f2a4057..8e22c1b 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -836,6 +836,11 @@ void ObjectiveFunction::evaluateObjectiveFunction() const {
 
 	if (!runCommand.empty()) {
 		try {
+			// An output file left over from an earlier evaluation must not be taken for a result
+			if (!definition.outputFilename.empty()) {
+				std::remove(definition.outputFilename.c_str());
+			}
+
 			// Execute the command and wait for completion
 			child c(runCommand);
 			c.wait(); // Wait for the process to finish
-- 
2.43.0


From 02fc3db11d3ecf4eae90d98576da13af4289ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 41/64] fix: report a design vector file which cannot be opened
 instead of aborting

---
 src/ObjectiveFunctions/objective_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 8e22c1b..7e41e02 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -706,7 +706,7 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	std::ofstream outputFileStream(definition.designVectorFilename);
 
 	if (!outputFileStream.is_open()) {
-		abort();
+		throw std::runtime_error("There was a problem opening the design vector file: " + definition.designVectorFilename);
 	}
 
 	for(unsigned int i=0; i<dim; i++) {
-- 
2.43.0


From 87642d6b295aad61575429d15d08ce79400b4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 42/64] fix: hand the design over to the simulation with full
 precision

---
 src/ObjectiveFunctions/objective_function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 7e41e02..9c79635 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -709,6 +709,8 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 		throw std::runtime_error("There was a problem opening the design vector file: " + definition.designVectorFilename);
 	}
 
+	outputFileStream.precision(std::numeric_limits<double>::max_digits10);
+
 	for(unsigned int i=0; i<dim; i++) {
 
 		outputFileStream << d.designParameters(i) << std::endl;
@@ -725,6 +727,10 @@ void ObjectiveFunction::writeDesignVariablesToFile(Design &d) const{
 	}
 	outputFileStream.close();
 
+	if (outputFileStream.fail()) {
+		throw std::runtime_error("There was a problem writing the design vector file: " + definition.designVectorFilename);
+	}
+
 }
 
 void ObjectiveFunction::evaluateDesign(Design &d) {
-- 
2.43.0


From 24fca39ce9d42b1943b91a31b55648f070b05cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 43/64] fix: discrete values lost the one which coincides with
 the upper bound

---
 src/Optimizers/optimization.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e30092f..e406de5 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1346,11 +1346,12 @@ int Optimizer::findClosestDiscreteValue(double value, const vec& discreteValues)
 }
 
 vec Optimizer::generateDiscreteValues(unsigned int index, double dx) const {
-	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx) + 1;
+	/* the tolerance keeps a last value which coincides with the upper bound up to rounding */
+	unsigned int numDiscreteValues = static_cast<unsigned int>((upperBounds(index) - lowerBounds(index)) / dx + 1e-9) + 1;
 	vec discreteValues(numDiscreteValues);
 
 	for (unsigned int k = 0; k < numDiscreteValues; ++k) {
-		discreteValues(k) = lowerBounds(index) + k * dx;
+		discreteValues(k) = std::min(lowerBounds(index) + k * dx, upperBounds(index));
 	}
 
 	return discreteValues;
-- 
2.43.0


From 19bb8c18ac7aab6b28bf4011bd0df696a41d22d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 44/64] fix: data race in the acquisition search could lose the
 best candidate

---
 src/Optimizers/optimization.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index e406de5..aaf2833 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -687,18 +687,14 @@ void Optimizer::searchAroundGlobalOptima(DesignForBayesianOptimization &designWi
 			designToBeTried.generateRandomDesignVectorAroundASample(dv0, lb,ub);
 			objFun.calculateExpectedImprovement(designToBeTried);
 			addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-			if (designToBeTried.valueAcquisitionFunction
-					> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-				{
+			{
+				if (designToBeTried.valueAcquisitionFunction
+						> designWithMaxAcqusition.valueAcquisitionFunction) {
 					designWithMaxAcqusition = designToBeTried;
 				}
-#if 0
-				printf("A design with a better EI value has been found (second loop) \n");
-				designToBeTried.print();
-#endif
 			}
 		}
 	}
@@ -727,12 +723,12 @@ void Optimizer::searchCompleteDesignSpace(DesignForBayesianOptimization &designW
 		designToBeTried.generateRandomDesignVector(lb, ub);
 		objFun.calculateExpectedImprovement(designToBeTried);
 		addPenaltyToAcqusitionFunctionForConstraints(designToBeTried);
-		if (designToBeTried.valueAcquisitionFunction
-				> designWithMaxAcqusition.valueAcquisitionFunction) {
 #ifdef OPENMP_SUPPORT
 #pragma omp critical
 #endif
-			{
+		{
+			if (designToBeTried.valueAcquisitionFunction
+					> designWithMaxAcqusition.valueAcquisitionFunction) {
 				designWithMaxAcqusition = designToBeTried;
 			}
 		}
-- 
2.43.0


From f24a86869c834c080c8a40aa19b923cd7b354946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 45/64] fix: the gradient of the acquisition function changed
 the values of the design

---
 src/Optimizers/optimization.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index aaf2833..cc7a20e 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -785,7 +785,10 @@ DesignForBayesianOptimization Optimizer::getDesignWithMaxExpectedImprovement(voi
 }
 
 
-vec Optimizer::calculateGradientOfAcquisitionFunction(DesignForBayesianOptimization &currentDesign) const {
+vec Optimizer::calculateGradientOfAcquisitionFunction(DesignForBayesianOptimization &design) const {
+
+	/* the values of the design itself must not be changed */
+	DesignForBayesianOptimization currentDesign = design;
 
 	if (dimension == 0) {
 		throw std::runtime_error("Dimension cannot be zero.");
-- 
2.43.0


From 77141b6a962cc910ab9ba04fd24abbfec9dca4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 46/64] fix: probability of improvement used the estimate of
 the previous calculation and was NaN without deviation

---
 src/Design/design_bo.cpp                      | 5 +++++
 src/ObjectiveFunctions/objective_function.cpp | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Design/design_bo.cpp b/src/Design/design_bo.cpp
index cfbb080..0baddc5 100644
--- a/src/Design/design_bo.cpp
+++ b/src/Design/design_bo.cpp
@@ -181,6 +181,11 @@ double  DesignForBayesianOptimization::pdf(double x, double m, double s)
 double  DesignForBayesianOptimization::cdf(double x0, double mu, double s)
 {
 
+	/* a vanishing deviation */
+	if (!(s > 0.0)) {
+		return (x0 < mu) ? 0.0 : 1.0;
+	}
+
 	double inp = (x0 - mu) / (s * SQRT2);
 	double result = 0.5 * (1.0 + erf(inp));
 	return result;
diff --git a/src/ObjectiveFunctions/objective_function.cpp b/src/ObjectiveFunctions/objective_function.cpp
index 9c79635..eb30855 100644
--- a/src/ObjectiveFunctions/objective_function.cpp
+++ b/src/ObjectiveFunctions/objective_function.cpp
@@ -507,13 +507,12 @@ void ObjectiveFunction::calculateProbabilityOfImprovement(DesignForBayesianOptim
 
 	double	sigma = sqrt(ssqr)	;
 	designCalculated.sigma = sigma;
+	designCalculated.objectiveFunctionValue = ftilde;
 
 	double PI = designCalculated.calculateProbalityThatTheEstimateIsLessThanAValue(sampleMinimum);
 
 	designCalculated.valueAcquisitionFunction = PI;
 
-	designCalculated.objectiveFunctionValue = ftilde;
-
 }
 
 void ObjectiveFunction::calculateSurrogateEstimate(DesignForBayesianOptimization &designCalculated) const{
-- 
2.43.0


From 3e955ae4c1cc58e8b28d377b31e15847c0957e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 47/64] fix: sigma factor became NaN if all designs coincide

---
 src/Optimizers/optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index cc7a20e..11d6a06 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -1260,7 +1260,8 @@ void Optimizer::adjustSigmaFactor(void) {
 	history.calculateCrowdingFactor();
 	double cFactor = history.getCrowdingFactor();
 	//	output.printMessage("cFactor", cFactor);
-	sigmaFactor = sigmaMultiplier*(crowdingCoefficient / cFactor);
+	/* coinciding designs have no crowding factor */
+	sigmaFactor = (cFactor > 0.0) ? sigmaMultiplier*(crowdingCoefficient / cFactor) : sigmaFactorMax;
 	//	output.printMessage("sigmaFactor (calculated)", sigmaFactor);
 
 	int randomNumber = getRandomInteger(0,100);
-- 
2.43.0


From b3f11a40924964b1c832fc3c65de8a9fbb886e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 48/64] fix: setNameOfTrainingDataFile stored the name of the
 study instead of the file

---
 src/API/INCLUDE/rodeo.h         | 3 ++-
 src/API/cppAPI.cpp              | 7 ++++++-
 src/Optimizers/optimization.cpp | 2 --
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/API/INCLUDE/rodeo.h b/src/API/INCLUDE/rodeo.h
index a323abc..551a32b 100644
--- a/src/API/INCLUDE/rodeo.h
+++ b/src/API/INCLUDE/rodeo.h
@@ -35,7 +35,8 @@ private:
 	vector<double> lowerBounds;
 	vector<double> upperBounds;
 
-	objectiveFunctionPtrType objectiveFunctionPtr;
+	objectiveFunctionPtrType objectiveFunctionPtr = nullptr;
+	string objectiveFunctionName;
 
 	vector<objectiveFunctionPtrType> constraintFunctionPtr;
 
diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 06642be..f2c95b7 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -113,7 +113,11 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 	if(filename.empty()){
 		throw std::invalid_argument("Empty file name for the training data");
 	}
-	objectiveFunctionTrainingFilename = name;
+	objectiveFunctionTrainingFilename = filename;
+
+	if(isObjectiveFunctionSpecified){
+		setObjectiveFunction(objectiveFunctionPtr, objectiveFunctionName, filename);
+	}
 }
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
@@ -142,6 +146,7 @@ void RobustDesignOptimizer::setObjectiveFunction(ObjectiveFunctionPtr function,
 
 
 	objectiveFunctionPtr = function;
+	objectiveFunctionName = functionName;
 
 	ObjectiveFunction objectiveFunctionToAdd;
 	objectiveFunctionToAdd.setDimension(dimension);
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 11d6a06..9375a6b 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -103,8 +103,6 @@ bool Optimizer::checkSettings(void) const{
 
 void Optimizer::addObjectFunction(ObjectiveFunction &objFunc){
 
-	assert(ifObjectFunctionIsSpecied == false);
-
 	objFun = objFunc;
 
 	designVectorFileName = objFun.getFileNameDesignVector();
-- 
2.43.0


From 7b3adff372b7c7f1e9c37b0e24d3cdd4da15f1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 49/64] fix: box constraints given repeatedly accumulated in
 the interface and NaN bounds were accepted

---
 src/API/cppAPI.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index f2c95b7..71e0580 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -6,6 +6,7 @@
 #include "../Bounds/INCLUDE/bounds.hpp"
 #include <filesystem>
 #include <algorithm>
+#include <cmath>
 
 #if defined(_WIN32) || defined(_WIN64)
 #include <direct.h>
@@ -88,8 +89,16 @@ void RobustDesignOptimizer::setBoxConstraints(double *lb, double *ub){
 		throw std::invalid_argument("Problem dimension is not specified");
 	}
 
+	lowerBounds.clear();
+	upperBounds.clear();
+	areBoxConstraintsSpecified = false;
+
+	if(lb == nullptr || ub == nullptr){
+		throw std::invalid_argument("Box constraints are not set properly");
+	}
+
 	for(unsigned int i=0;i<dimension; i++){
-		if(lb[i] >= ub[i]){
+		if(!std::isfinite(lb[i]) || !std::isfinite(ub[i]) || lb[i] >= ub[i]){
 			throw std::invalid_argument("Box constraints are not set properly");
 
 		}
-- 
2.43.0


From aa701d36ceab2419d52737106f28a033d7d3861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 50/64] fix: reject constraint expressions with trailing text

---
 src/API/cppAPI.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 71e0580..3e86ccc 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -207,6 +207,12 @@ ParsedConstraintExpression parseExpression(const std::string& input) {
 		throw std::invalid_argument("Failed to parse the floating point number from expression: '" + input + "'");
 	}
 
+	// Nothing may follow the number
+	stream >> std::ws;
+	if (!stream.eof()) {
+		throw std::invalid_argument("Unexpected text after the number in expression: '" + input + "'");
+	}
+
 	return result;
 }
 
-- 
2.43.0


From 7edef58e144a19e1318881f53a8e68f1f6010725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 51/64] fix: samples of the DoE were stored with fewer digits
 than the later ones

---
 src/API/cppAPI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 3e86ccc..0978dc6 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -330,7 +330,7 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
 
         try {
             // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint]);
+            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], 12);
         } catch (const std::exception& e) {
             std::cerr << "Error saving training data for constraint " << iConstraint
                       << " to file: " << e.what() << std::endl;
@@ -386,7 +386,7 @@ void RobustDesignOptimizer::performDoE(void) {
 
 		try {
 			// Save the training data
-			trainingData.saveAsCSV(objectiveFunctionTrainingFilename);
+			trainingData.saveAsCSV(objectiveFunctionTrainingFilename, 12);
 		} catch (const std::exception &e) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
-- 
2.43.0


From 5770ce08f63a12b0fa463e6ff1529fbb3e89bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 52/64] fix: settings of the interface depended on the order of
 the calls and failed after the DoE

---
 src/API/cppAPI.cpp                                   | 5 +++++
 src/Optimizers/optimization.cpp                      | 4 ++++
 src/Optimizers/optimization_constraint_functions.cpp | 4 ++++
 src/Optimizers/optimization_setter_getters.cpp       | 8 +++++++-
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 0978dc6..1015655 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -131,6 +131,11 @@ void RobustDesignOptimizer::setNameOfTrainingDataFile(std::string filename){
 
 void RobustDesignOptimizer::setDimension(unsigned int dim){
 
+	if(isDimensionSpecified && dim == dimension){
+		return;
+	}
+
+	areBoxConstraintsSpecified = false;
 	dimension = dim;
 	optimizer.setDimension(dimension);
 	isDimensionSpecified = true;
diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 9375a6b..b4734be 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -105,6 +105,10 @@ void Optimizer::addObjectFunction(ObjectiveFunction &objFunc){
 
 	objFun = objFunc;
 
+	if (ifBoxConstraintsSet) {
+		objFun.setParameterBounds(Bounds(lowerBounds, upperBounds));
+	}
+
 	designVectorFileName = objFun.getFileNameDesignVector();
 
 	objFun.setSigmaFactor(sigmaFactor);
diff --git a/src/Optimizers/optimization_constraint_functions.cpp b/src/Optimizers/optimization_constraint_functions.cpp
index f6c776c..b1ef9f6 100644
--- a/src/Optimizers/optimization_constraint_functions.cpp
+++ b/src/Optimizers/optimization_constraint_functions.cpp
@@ -21,6 +21,10 @@ bool Optimizer::isNotConstrained(void) const{
 void Optimizer::addConstraint(ConstraintFunction &constFunc){
 
 	constraintFunctions.push_back(constFunc);
+
+	if (ifBoxConstraintsSet) {
+		constraintFunctions.back().setParameterBounds(Bounds(lowerBounds, upperBounds));
+	}
 	numberOfConstraints++;
 	globalOptimalDesign.setNumberOfConstraints(numberOfConstraints);
 	statistics.numberOfConstraintEvaluations.push_back(0);
diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index d6af2c4..d9d97a7 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -60,7 +60,6 @@ void Optimizer::setBoxConstraints(const Bounds& boxConstraints) {
 		}
 	}
 
-	assert(ifObjectFunctionIsSpecied && "Objective function must be specified before setting box constraints.");
 	objFun.setParameterBounds(boxConstraints);
 
 	if (isConstrained()) {
@@ -98,9 +97,16 @@ void Optimizer::setDimension(unsigned int dim){
 	dimension = dim;
 	lowerBounds.resize(dimension);
 	upperBounds.resize(dimension);
+	ifBoxConstraintsSet = false;
 	initializeBoundsForAcquisitionFunctionMaximization();
 	iterMaxAcquisitionFunction = dimension*10000;
 
+	/* functions which have been specified before */
+	objFun.setDimension(dim);
+	for (auto& constraintFunction : constraintFunctions) {
+		constraintFunction.setDimension(dim);
+	}
+
 	globalOptimalDesign.setDimension(dim);
 	currentBestDesign.setDimension(dim);
 	history.setDimension(dim);
-- 
2.43.0


From 8b2cbfb30d9908ac149e0a6d43a82e601d6ad564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 53/64] fix: NaN values in the DoE of the C++ interface stop
 the run instead of being stored as samples

---
 src/API/cppAPI.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 1015655..20bb70e 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -319,6 +319,10 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
                 // Evaluate the constraint function
                 double f = constraintFunctionPtr[iConstraint](x.getPointer());
 
+                if (std::isnan(f)) {
+                    throw std::runtime_error("The constraint function returned NaN in the DoE.");
+                }
+
                 // Add the constraint result to the sample data
                 vec sample = x;
                 sample.push_back(f);
@@ -384,6 +388,10 @@ void RobustDesignOptimizer::performDoE(void) {
 			throw std::runtime_error("DoE process will be killed.");
 		}
 
+		if (std::isnan(functionValues(i))) {
+			throw std::runtime_error("The objective function returned NaN in the DoE.");
+		}
+
 		// Add the evaluated function value to the sample
 		vec sampleToAdd = x;
 		sampleToAdd.push_back(functionValues(i));
-- 
2.43.0


From 74e44b80bbe2b25ec71b10d5c775fcc5c1a58cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 54/64] fix: DoE of the constraints is saved after each
 evaluation

---
 src/API/cppAPI.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 20bb70e..8ec57b8 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -330,6 +330,9 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
                 // Add the sample to the training data for this constraint
                 trainingDataForConstraint.addRow(sample);
 
+                // Save after each evaluation so that no completed evaluation is lost
+                trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], 12);
+
             } catch (const std::exception& e) {
                 std::cerr << "Error evaluating constraint " << iConstraint
                           << " for sample " << i << ": " << e.what() << std::endl;
@@ -337,14 +340,6 @@ void RobustDesignOptimizer::performDoEForConstraints(void){
             }
         }
 
-        try {
-            // Save all training data for this constraint at once, after collecting all rows
-            trainingDataForConstraint.saveAsCSV(constraintsTrainingDataFilename[iConstraint], 12);
-        } catch (const std::exception& e) {
-            std::cerr << "Error saving training data for constraint " << iConstraint
-                      << " to file: " << e.what() << std::endl;
-            throw;
-        }
     }
 }
 
-- 
2.43.0


From 2cb73a0d25dab52e4e5d3a54611822438980ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 55/64] fix: evaluated designs on the boundary stay feasible
 when their rounded training data is read again

---
 src/Optimizers/optimization.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index b4734be..2438a3c 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -995,7 +995,10 @@ bool Optimizer::checkIfBoxConstraintsAreSatisfied(const vec &designVariables) co
 
 	// Check if each design variable satisfies the box constraints
 	for (unsigned int i = 0; i < dimension; ++i) {
-		if (designVariables(i) < lowerBounds(i) || designVariables(i) > upperBounds(i)) {
+		// A design on the boundary may exceed it by the rounding in the training data file
+		const double tolerance = 1e-12 + 1e-15 * std::max(std::fabs(lowerBounds(i)), std::fabs(upperBounds(i)));
+
+		if (designVariables(i) < lowerBounds(i) - tolerance || designVariables(i) > upperBounds(i) + tolerance) {
 			// Log the violation
 			std::ostringstream oss;
 			oss << "Box constraint violation for variable " << i << ": "
-- 
2.43.0


From 1ced82dc4a85d14db256f5a7899e76e9ce6decfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:32 +0000
Subject: [PATCH 56/64] hook: RODEO_VERIFY_HOOKS records the hyperparameters of
 each training

---
 src/SurrogateModels/INCLUDE/surrogate_model.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SurrogateModels/INCLUDE/surrogate_model.hpp b/src/SurrogateModels/INCLUDE/surrogate_model.hpp
index 8b65e46..c71801a 100644
--- a/src/SurrogateModels/INCLUDE/surrogate_model.hpp
+++ b/src/SurrogateModels/INCLUDE/surrogate_model.hpp
@@ -78,7 +78,11 @@ protected:
 	bool ifHasGradientData = false;
 
 
+#ifdef RODEO_VERIFY_HOOKS /* monitored builds record the hyperparameters of each training */
+	bool ifWriteWarmStartFile = true;
+#else
 	bool ifWriteWarmStartFile = false;
+#endif
 	bool ifReadWarmStartFile  = false;
 
 	unsigned int numberOfThreads = 1;
-- 
2.43.0


From 8334757cee70aa64ef84fb137a03fafeaf1edb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 57/64] fix: constraints can be added to the interface before
 the dimension is set

---
 src/API/cppAPI.cpp                               | 16 +++++++++-------
 .../optimization_constraint_functions.cpp        |  4 +++-
 src/Optimizers/optimization_setter_getters.cpp   |  3 +++
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 8ec57b8..032f12c 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -251,10 +251,6 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 		throw std::invalid_argument("Invalid inequality in constraint expression.");
 	}
 
-	// Add the function pointer and filename to the appropriate vectors
-	constraintFunctionPtr.push_back(function);
-	constraintsTrainingDataFilename.push_back(filename);
-
 	// Create a new constraint function object
 	ConstraintFunction constraint;
 	constraint.setFunctionPtr(function);
@@ -273,15 +269,21 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 	constraintExpression.inequalityType = exp.inequality;
 	constraintExpression.value = exp.value;
 	constraintExpression.ID = numberOfConstraints;
-	numberOfConstraints++;
 
-	// Set the constraint's definition and dimension
+	// Set the constraint's definition and dimension (setDimension passes a later dimension on)
 	constraint.setConstraintDefinition(constraintExpression);
-	constraint.setDimension(dimension);
+	if (isDimensionSpecified) {
+		constraint.setDimension(dimension);
+	}
 
 	// Add the constraint to the optimizer
 	optimizer.addConstraint(constraint);
 
+	// Add the function pointer and filename to the appropriate vectors
+	constraintFunctionPtr.push_back(function);
+	constraintsTrainingDataFilename.push_back(filename);
+	numberOfConstraints++;
+
 	// Optionally, add logging here to record the success of adding the constraint
 	// DriverLogger::getInstance().log(INFO, "Constraint '" + exp.name + "' added successfully.");
 }
diff --git a/src/Optimizers/optimization_constraint_functions.cpp b/src/Optimizers/optimization_constraint_functions.cpp
index b1ef9f6..5c683db 100644
--- a/src/Optimizers/optimization_constraint_functions.cpp
+++ b/src/Optimizers/optimization_constraint_functions.cpp
@@ -26,7 +26,9 @@ void Optimizer::addConstraint(ConstraintFunction &constFunc){
 		constraintFunctions.back().setParameterBounds(Bounds(lowerBounds, upperBounds));
 	}
 	numberOfConstraints++;
-	globalOptimalDesign.setNumberOfConstraints(numberOfConstraints);
+	if (dimension > 0) {
+		globalOptimalDesign.setNumberOfConstraints(numberOfConstraints);
+	}
 	statistics.numberOfConstraintEvaluations.push_back(0);
 	statistics.numberOfConstraintGradientEvaluations.push_back(0);
 }
diff --git a/src/Optimizers/optimization_setter_getters.cpp b/src/Optimizers/optimization_setter_getters.cpp
index d9d97a7..4630381 100644
--- a/src/Optimizers/optimization_setter_getters.cpp
+++ b/src/Optimizers/optimization_setter_getters.cpp
@@ -108,6 +108,9 @@ void Optimizer::setDimension(unsigned int dim){
 	}
 
 	globalOptimalDesign.setDimension(dim);
+	if (numberOfConstraints > 0) {
+		globalOptimalDesign.setNumberOfConstraints(numberOfConstraints);
+	}
 	currentBestDesign.setDimension(dim);
 	history.setDimension(dim);
 
-- 
2.43.0


From fc3883833a7aa51aabd4ee173d5f2762359211a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 58/64] fix: repeated constraint names were only rejected after
 the DoE of the interface

---
 src/API/INCLUDE/rodeo.h | 1 +
 src/API/cppAPI.cpp      | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/API/INCLUDE/rodeo.h b/src/API/INCLUDE/rodeo.h
index 551a32b..7b29afd 100644
--- a/src/API/INCLUDE/rodeo.h
+++ b/src/API/INCLUDE/rodeo.h
@@ -27,6 +27,7 @@ private:
 
 	string objectiveFunctionTrainingFilename;
 	vector<string> constraintsTrainingDataFilename;
+	vector<string> constraintNames;
 
 	bool isDimensionSpecified = false;
 	bool isObjectiveFunctionSpecified = false;
diff --git a/src/API/cppAPI.cpp b/src/API/cppAPI.cpp
index 032f12c..9bce24f 100644
--- a/src/API/cppAPI.cpp
+++ b/src/API/cppAPI.cpp
@@ -246,6 +246,11 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 		throw std::invalid_argument("Constraint name parsed from expression is empty.");
 	}
 
+	// Each constraint needs a name of its own
+	if (std::find(constraintNames.begin(), constraintNames.end(), exp.name) != constraintNames.end()) {
+		throw std::invalid_argument("Constraint name already exists: " + exp.name);
+	}
+
 	// Ensure the inequality is valid
 	if (exp.inequality != "<" && exp.inequality != ">") {
 		throw std::invalid_argument("Invalid inequality in constraint expression.");
@@ -282,6 +287,7 @@ void RobustDesignOptimizer::addConstraint(ObjectiveFunctionPtr function, std::st
 	// Add the function pointer and filename to the appropriate vectors
 	constraintFunctionPtr.push_back(function);
 	constraintsTrainingDataFilename.push_back(filename);
+	constraintNames.push_back(exp.name);
 	numberOfConstraints++;
 
 	// Optionally, add logging here to record the success of adding the constraint
-- 
2.43.0


From e64b4264ae5896fc3b3774b04af62f1e520cfa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 59/64] fix: three successive improvements shrank the trust
 region instead of enlarging it for several parameters

---
 src/Optimizers/optimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizers/optimization.cpp b/src/Optimizers/optimization.cpp
index 2438a3c..a3ad409 100644
--- a/src/Optimizers/optimization.cpp
+++ b/src/Optimizers/optimization.cpp
@@ -62,7 +62,7 @@ void Optimizer::initializeOptimizerSettings(void) {
 	iterGradientEILoop = 100;
 	improvementPercentThresholdForGradientStep = 5;
 
-	trLengthMax = 1.0/dimension;
+	trLengthMax = 1.0;
 	trLengthMin = pow(0.5,8)*trLengthMax;
 }
 
-- 
2.43.0


From 8d4ad9781bd0ee90defff6db9d5671e13239935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:01 +0000
Subject: [PATCH 60/64] fix: a resized linear system kept the flags of its old
 matrix and factorization

---
 src/LinearAlgebra/linear_solver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/LinearAlgebra/linear_solver.cpp b/src/LinearAlgebra/linear_solver.cpp
index 1645c7e..e7ce29e 100644
--- a/src/LinearAlgebra/linear_solver.cpp
+++ b/src/LinearAlgebra/linear_solver.cpp
@@ -50,6 +50,9 @@ void CholeskySystem::setDimension(unsigned dim){
 	A.resize(dim, dim);
 	factorizationMatrix.resize(dim, dim);
 
+	ifMatrixIsSet = false;
+	ifFactorizationIsDone = false;
+
 }
 
 unsigned int CholeskySystem::getDimension(void) const{
@@ -179,6 +182,9 @@ void LUSystem::setDimension(unsigned int dim){
 
 	pivots.resize(dimension);
 
+	ifMatrixIsSet = false;
+	ifFactorizationIsDone = false;
+
 }
 
 int LUSystem::getDimension(void) const{
-- 
2.43.0


From 48f3ccb3e1b6e592d2ad535b963e48e3b1bda32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 61/64] fix: counting the samples within bounds used the rows
 of the file although some are validation samples

---
 src/SurrogateModels/surrogate_model.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/SurrogateModels/surrogate_model.cpp b/src/SurrogateModels/surrogate_model.cpp
index eaa32a9..561b561 100644
--- a/src/SurrogateModels/surrogate_model.cpp
+++ b/src/SurrogateModels/surrogate_model.cpp
@@ -141,17 +141,12 @@ unsigned int SurrogateModel::countHowManySamplesAreWithinBounds(vec lb, vec ub){
 
 	assert(ifDataIsRead);
 
-	mat trainingData;
-	trainingData = data.getRawData();
-
 	unsigned int N   = data.getNumberOfSamples();
-	unsigned int dim = data.getDimension();
 
 	unsigned int counter = 0;
 	for(unsigned int i=0; i<N; i++){
 
-		vec sample     = trainingData.getRow(i);
-		vec dv         = sample.head(dim);
+		vec dv = data.getRowXRaw(i);
 
 		if( dv.is_between(lb,ub) ){
 			counter++;
-- 
2.43.0


From e6b574cd83c1499b1d756316c90de0ec92a884fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 62/64] fix: resetting the surrogate model data kept samples,
 derivatives and flags of the old data

---
 src/SurrogateModels/surrogate_model_data.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index c88af4a..6bf7a07 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -13,19 +13,33 @@ SurrogateModelData::SurrogateModelData(){}
 
 void SurrogateModelData::reset(void){
 
+	rawData.reset();
+	rawDataWork.reset();
+	rawDataValidation.reset();
 	X.reset();
 	XTest.reset();
 	Xraw.reset();
 	XrawTest.reset();
+	XValidation.reset();
+	XrawValidation.reset();
+	y.reset();
+	yTest.reset();
+	yValidation.reset();
 	dimension = 0;
 	gradient.reset();
+	gradientRaw.reset();
 	differentiationDirections.reset();
 	directionalDerivatives.reset();
+	indicesForValidationData.clear();
 	ifDataHasGradients = false;
+	ifDataHasDirectionalDerivatives = false;
 	ifDataIsNormalized = false;
 	ifDataIsRead = false;
+	ifTestDataIsRead = false;
+	ifTestDataHasFunctionValues = false;
 	numberOfSamples = 0;
 	numberOfTestSamples = 0;
+	numberOfValidationSamples = 0;
 	boxConstraints.reset();
 
 }
-- 
2.43.0


From 2d5faee185e9859a726497a2e99e390be923f66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 63/64] fix: data that is read again counted as normalized

---
 src/SurrogateModels/surrogate_model_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 6bf7a07..884fa55 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -182,6 +182,7 @@ void SurrogateModelData::readData(string inputFilename){
 
 	filenameFromWhichTrainingDataIsRead = inputFilename;
 	ifDataIsRead = true;
+	ifDataIsNormalized = false;
 
 
 }
-- 
2.43.0


From 8eda3450c8c6ada5fb9eb24300c7f48c5563e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:13 +0000
Subject: [PATCH 64/64] fix: training data with a wrong number of derivative
 columns was accepted

---
 src/SurrogateModels/surrogate_model_data.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SurrogateModels/surrogate_model_data.cpp b/src/SurrogateModels/surrogate_model_data.cpp
index 884fa55..c681356 100644
--- a/src/SurrogateModels/surrogate_model_data.cpp
+++ b/src/SurrogateModels/surrogate_model_data.cpp
@@ -268,6 +268,12 @@ void SurrogateModelData::assignDimensionFromData(void) {
 		throw std::runtime_error("Error: RawDataWork is empty (assign dimension from data).");
 	}
 	unsigned int dimensionOfTrainingData;
+	unsigned int numberOfColumns = rawDataWork.getNCols();
+
+	// There are two columns for each parameter if derivatives are available
+	if ((ifDataHasGradients && numberOfColumns % 2 == 0) || (ifDataHasDirectionalDerivatives && numberOfColumns % 2 != 0)) {
+		throw std::runtime_error("Error: Number of columns of the training data does not match the derivatives (assign dimension from data).");
+	}
 
 	// Determine the dimension based on the type of data
 	if (ifDataHasGradients) {
-- 
2.43.0

