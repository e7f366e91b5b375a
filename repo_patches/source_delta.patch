From e290e7d171be8315ea8dc5439e6e19cc871d7f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 01/14] fix: particles added after the first step no longer
 abort the pressure equation

ViennaCL matrices and vectors cannot be assigned from ones of another size
(assertion failure), so they have to be resized when the number of particles
changes.
---
 src/OpenMps/Computer.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 3fa81f8..1fe5d93 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1162,12 +1162,25 @@ namespace { namespace OpenMps
 			if (n != ppe.b.size())
 			{
 				// サイズを変えて作り直し
-				ppe.A = typename Ppe::Matrix {n, n};
-				ppe.x = typename Ppe::LongVector(n);
-				ppe.b = typename Ppe::LongVector(n);
-				ppe.cg.r = typename Ppe::LongVector(n);
-				ppe.cg.p = typename Ppe::LongVector(n);
-				ppe.cg.Ap = typename Ppe::LongVector(n);
+				if (ppe.b.size() == 0)
+				{
+					ppe.A = typename Ppe::Matrix {n, n};
+					ppe.x = typename Ppe::LongVector(n);
+					ppe.b = typename Ppe::LongVector(n);
+					ppe.cg.r = typename Ppe::LongVector(n);
+					ppe.cg.p = typename Ppe::LongVector(n);
+					ppe.cg.Ap = typename Ppe::LongVector(n);
+				}
+				else
+				{
+					// ViennaCLでは異なるサイズのものは代入できない
+					ppe.A.resize(n, n, false);
+					ppe.x.resize(n, false);
+					ppe.b.resize(n, false);
+					ppe.cg.r.resize(n, false);
+					ppe.cg.p.resize(n, false);
+					ppe.cg.Ap.resize(n, false);
+				}
 
 #ifdef USE_VIENNACL
 				ppe.tempA = typename Ppe::TempMatrix(n, n);
-- 
2.43.0


From e48d741620104a033087e543b0dc6e5213fbaef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 02/14] fix: disabled particles are no longer moved by the wall
 law

A particle that left the domain was treated as a wall: it jumped to the position
of the wall law and got the velocity of that jump, which then limited the time
step of the whole simulation.
---
 src/OpenMps/Computer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 1fe5d93..39ed8e0 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1009,8 +1009,8 @@ namespace { namespace OpenMps
 					particles[i].U() += a[i] * dt;
 					particles[i].X() += particles[i].U()* dt;
 				}
-				// 壁の位置
-				else
+				// 壁の位置（無効粒子は動かさない）
+				else if(particles[i].TYPE() != Particle::Type::Disabled)
 				{
 					const Vector x = positionWall(i, t, dt);
 					const Vector u = (x - particles[i].X()) / dt; // 速度は位置から微分
-- 
2.43.0


From bdae4ade53ca3a7a5f7fa3f7dd8a76bf3c7216a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 03/14] fix: time step without particles or with disabled ones

DetermineDt dereferenced the end iterator when there was no particle, and let
the velocity of disabled particles limit the time step.
---
 src/OpenMps/Computer.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 39ed8e0..9f2cd2d 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -760,16 +760,15 @@ namespace { namespace OpenMps
 		{
 			namespace ublas = boost::numeric::ublas;
 
-			// 最大速度を取得
-			const auto maxUParticle = *std::max_element(particles.cbegin(), particles.cend(),
-				[](const Particle& base, const Particle& target)
+			// 最大速度を取得（無効粒子は除く）
+			double maxU = 0;
+			for(const auto& particle : particles)
 			{
-				const auto& baseU = base.U();
-				const auto& targetU = target.U();
-				return (ublas::inner_prod(baseU, baseU) < ublas::inner_prod(targetU, targetU));
-			});
-			const auto maxU = ublas::norm_2(maxUParticle.U());
-
+				if(particle.TYPE() != Particle::Type::Disabled)
+				{
+					maxU = std::max(maxU, static_cast<double>(ublas::norm_2(particle.U())));
+				}
+			}
 
 			// CFL条件より時間刻みを決定する
 			const auto dt = (maxU == 0 ? environment.MaxDt : std::min(environment.MaxDx / maxU, environment.MaxDt));
-- 
2.43.0


From 98b2c408f3727c98c059c448f2b14a85ac95b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 04/14] fix: a particle with nothing in range has zero pressure

Its row of the pressure equation was all zero, so it kept the pressure of an
earlier step for ever.
---
 src/OpenMps/Computer.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 9f2cd2d..582b470 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1331,10 +1331,18 @@ namespace { namespace OpenMps
 						}
 					});
 
+					// 相互作用する粒子が全くなければ方程式が立たないので、圧力0とする
+					const auto isIsolated = (a_ii == 0);
+					const auto diagonal = isIsolated ? 1.0 : a_ii;
+					if(isIsolated)
+					{
+						ppe.b(i) = 0;
+						ppe.x(i) = 0;
+					}
 #ifdef _OPENMP
-					a_i.emplace_back(i, a_ii);
+					a_i.emplace_back(i, diagonal);
 #else
-					A(i, i) = a_ii;
+					A(i, i) = diagonal;
 #endif
 				}
 			}
-- 
2.43.0


From 230ae7bf38f04cddbc6f66a2092011f51bf250b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 05/14] fix: 3D grid loops over y ran to the number of blocks
 in x

Clear() left blocks uncleared (more blocks in y than in x) or wrote out of
bounds (fewer).
---
 src/OpenMps/Grid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 1ea3925..462e2a5 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -166,7 +166,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -195,7 +195,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
@@ -229,7 +229,7 @@ namespace { namespace OpenMps
 			for (auto i = decltype(nx){0}; i < nx; i++)
 			{
 #ifdef DIM3
-				for (auto j = decltype(ny){0}; j < nx; j++)
+				for (auto j = decltype(ny){0}; j < ny; j++)
 				{
 #endif
 					for (auto k = decltype(nz){0}; k < nz; k++)
-- 
2.43.0


From 8ccab3f23f30cb00da390445a9a2e762c6045e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 06/14] fix: report an overfull search block like any other
 computation error

Grid::Exception was not caught and terminated the application.
---
 src/OpenMps/Main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 4769219..7caa337 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -384,7 +384,7 @@ int main(const int argc, const char* const argv[])
 			printTime(tComputer, iteration, outputCount + outputIterationOffset, count);
 		}
 		// 計算で例外があったら
-		catch(decltype(computer)::Exception ex)
+		catch(const std::runtime_error& ex)
 		{
 			// エラーメッセージを出して止める
 			std::cout << "!!!!ERROR!!!!" << std::endl
-- 
2.43.0


From 05f3af7e4721fe08853af98722874786f0edbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 07/14] fix: refuse malformed particle tables instead of
 reading out of bounds

A table without any line, a line with too few values, an unknown particle type
and a missing format attribute ended in undefined behaviour or invented values.
---
 src/OpenMps/Main.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 7caa337..aec6e22 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -76,7 +76,11 @@ namespace
 
 		// 先頭の空行は飛ばす
 		auto itr = input.cbegin();
-		for (; itr->size() == 0; ++itr) {}
+		for (; (itr != input.cend()) && (itr->size() == 0); ++itr) {}
+		if (itr == input.cend())
+		{
+			throw std::runtime_error("No header in input csv");
+		}
 
 		// 行をカンマ区切りで分割する関数
 		const auto GetItems = [](std::string str)
@@ -113,6 +117,7 @@ namespace
 			{ "p", HEADER_NOT_FOUND },
 			{ "n", HEADER_NOT_FOUND },
 		});
+		std::size_t columnCount = 0;
 		{
 			// 先頭行を読み込み
 			auto& line = *itr; ++itr;
@@ -138,6 +143,9 @@ namespace
 					throw std::runtime_error("Some header item doesn't exist");
 				}
 
+				// データ行に最低限必要な列数
+				columnCount = std::max(columnCount, item.second);
+
 				// 列番号に戻す
 				item.second--;
 			}
@@ -150,7 +158,19 @@ namespace
 			const auto data = GetItems(line);
 			if (data.size() > 0) // 空行は飛ばす
 			{
-				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]])));
+				// 足りない項目があったらエラー
+				if (data.size() < columnCount)
+				{
+					throw std::runtime_error("Some item doesn't exist in input csv");
+				}
+
+				const auto type = stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]]);
+				if ((type < static_cast<decltype(type)>(OpenMps::Particle::Type::IncompressibleNewton)) ||
+					(type > static_cast<decltype(type)>(OpenMps::Particle::Type::Disabled)))
+				{
+					throw std::runtime_error("Illegal particle type in input csv");
+				}
+				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(type));
 
 				// 位置ベクトル
 				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
@@ -186,7 +206,7 @@ namespace
 	inline decltype(auto) LoadParticles(const boost::property_tree::ptree& xml)
 	{
 		// 粒子データの読み込み
-		const auto type = xml.get_optional<std::string>("openmps.particles.<xmlattr>.type").get();
+		const auto type = xml.get<std::string>("openmps.particles.<xmlattr>.type");
 		if (type == "csv")
 		{
 			auto&& txt = xml.get<std::string>("openmps.particles");
-- 
2.43.0


From 19c7387fa25428c68c908a75d2813bf016656a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 08/14] fix: number of result files off by one through rounding

(1.0 - 0.7)/0.1 is slightly more than 3, so a fourth file was written (and
startTime=0.035 with outputInterval=0.005 was numbered from 8 instead of 7);
an end before the start was converted to an unsigned number of files.
---
 src/OpenMps/Main.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index aec6e22..fafc93d 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -1,6 +1,7 @@
 ﻿#include <iostream>
 #include <fstream>
 #include <ctime>
+#include <cmath>
 #include <type_traits>
 #include <sstream>
 #include <unordered_map>
@@ -26,6 +27,16 @@ namespace { namespace std
 
 namespace
 {
+	// 出力回数などのために、商を切り上げた整数を求める
+	// 計算誤差（0.3/0.1など）の範囲で整数とみなせる場合はその整数とし、負の場合は0とする
+	inline auto CeilQuotient(const double a, const double b)
+	{
+		const auto quotient = a / b;
+		const auto nearest = std::round(quotient);
+		const auto isInteger = std::abs(quotient - nearest) <= 1e-9 * std::max(1.0, std::abs(quotient));
+		return static_cast<std::size_t>(std::max(0.0, isInteger ? nearest : std::ceil(quotient)));
+	}
+
 	// 計算結果をCSVへ出力する
 	template<typename COMPUTER>
 	inline auto OutputToCsv(const COMPUTER& computer, const std::size_t& outputCount)
@@ -353,7 +364,7 @@ int main(const int argc, const char* const argv[])
 	timer.Start();
 	boost::format timeFormat("#%3$05d: t=%1$8.4lf (%2$05d), %10$12d particles, @ %4$02d/%5$02d %6$02d:%7$02d:%8$02d (%9$8.2lf)");
 
-	const auto outputIterationOffset = static_cast<std::size_t>(std::ceil(condition.StartTime / condition.OutputInterval));
+	const auto outputIterationOffset = CeilQuotient(condition.StartTime, condition.OutputInterval);
 
 	// 開始時間を画面表示
 	const auto printTime = [&timeFormat, &timer](const auto tComputer, const auto iteration, const auto outputCount, const auto count)
@@ -379,7 +390,7 @@ int main(const int argc, const char* const argv[])
 	// 計算が終了するまで
 	double nextOutputT = 0;
 	std::size_t iteration = 0;
-	const auto endCount = static_cast<std::size_t>(std::ceil((condition.EndTime - condition.StartTime) / condition.OutputInterval));
+	const auto endCount = CeilQuotient(condition.EndTime - condition.StartTime, condition.OutputInterval);
 	for(auto outputCount = decltype(endCount){1}; outputCount <= endCount; outputCount++)
 	{
 		double tComputer = computer.GetEnvironment().T();
-- 
2.43.0


From dc4bc491ce7037932d924dac180dd22a051a131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 09/14] fix: refuse values with trailing garbage in particle
 tables

"1.5abc" was read as 1.5 and a particle type of "0.9" as 0.
---
 src/OpenMps/Main.cpp | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index fafc93d..252e99a 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -77,6 +77,19 @@ namespace
 		return nonDisalbeCount;
 	}
 
+	// 文字列全体を値に変換する（後ろに余分な文字があればエラー）
+	template<typename T>
+	inline auto ToValue(const std::string& str)
+	{
+		std::size_t length = 0;
+		const auto value = stov<T>(str, &length);
+		if (length != str.size())
+		{
+			throw std::runtime_error("Illegal value in input csv");
+		}
+		return value;
+	}
+
 	// 粒子を読み込む
 	inline auto InputFromCsv(const std::string& csv)
 	{
@@ -175,7 +188,7 @@ namespace
 					throw std::runtime_error("Some item doesn't exist in input csv");
 				}
 
-				const auto type = stov<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]]);
+				const auto type = ToValue<std::underlying_type_t<OpenMps::Particle::Type>>(data[header["Type"]]);
 				if ((type < static_cast<decltype(type)>(OpenMps::Particle::Type::IncompressibleNewton)) ||
 					(type > static_cast<decltype(type)>(OpenMps::Particle::Type::Disabled)))
 				{
@@ -184,24 +197,24 @@ namespace
 				auto particle = OpenMps::Particle(static_cast<OpenMps::Particle::Type>(type));
 
 				// 位置ベクトル
-				particle.X()[OpenMps::AXIS_X] = stov<double>(data[header["x"]]);
+				particle.X()[OpenMps::AXIS_X] = ToValue<double>(data[header["x"]]);
 #ifdef DIM3
-				particle.X()[OpenMps::AXIS_Y] = stov<double>(data[header["y"]]);
+				particle.X()[OpenMps::AXIS_Y] = ToValue<double>(data[header["y"]]);
 #endif
-				particle.X()[OpenMps::AXIS_Z] = stov<double>(data[header["z"]]);
+				particle.X()[OpenMps::AXIS_Z] = ToValue<double>(data[header["z"]]);
 
 				// 速度ベクトル
-				particle.U()[OpenMps::AXIS_X] = stov<double>(data[header["u"]]);
+				particle.U()[OpenMps::AXIS_X] = ToValue<double>(data[header["u"]]);
 #ifdef DIM3
-				particle.U()[OpenMps::AXIS_Y] = stov<double>(data[header["v"]]);
+				particle.U()[OpenMps::AXIS_Y] = ToValue<double>(data[header["v"]]);
 #endif
-				particle.U()[OpenMps::AXIS_Z] = stov<double>(data[header["w"]]);
+				particle.U()[OpenMps::AXIS_Z] = ToValue<double>(data[header["w"]]);
 
 				// 圧力
-				particle.P() = stov<double>(data[header["p"]]);
+				particle.P() = ToValue<double>(data[header["p"]]);
 
 				// 粒子数密度
-				particle.N() = stov<double>(data[header["n"]]);
+				particle.N() = ToValue<double>(data[header["n"]]);
 
 				particles.push_back(std::move(particle));
 			}
-- 
2.43.0


From d7e77c9cfccef44e8b0997aa9c919aada1308023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 10/14] fix: a step without any particles does not fail

ViennaCL throws when it is used with vectors that were never given a size.
---
 src/OpenMps/Computer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 582b470..084e802 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1065,6 +1065,12 @@ namespace { namespace OpenMps
 				particle.P() = (rho <= rho0) ? 0 : c*c*(rho - rho0);
 			}
 #else
+			// 粒子がなければ解くべき方程式もない
+			if(n == 0)
+			{
+				return;
+			}
+
 			// 圧力方程式を設定
 			SetPressurePoissonEquation();
 
-- 
2.43.0


From 067a208930b5e6365fdbb3050966a238ecde0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 11/14] fix: explicit pressure overwrote the pressure of dummy
 and disabled particles

---
 src/OpenMps/Computer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 084e802..5847cb1 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -1058,6 +1058,12 @@ namespace { namespace OpenMps
 
 				auto& particle = particles[i];
 
+				// ダミー粒子と無効粒子は除く
+				if((particle.TYPE() == Particle::Type::Dummy) || (particle.TYPE() == Particle::Type::Disabled))
+				{
+					continue;
+				}
+
 				// 仮想的な密度：ρ0/n0 * n
 				const auto rho = rho0 / n0 * particle.N();
 
-- 
2.43.0


From 53864de1f4a91703d015d0a531775901105ed758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 12/14] fix: block numbers of extremely distant positions were
 converted with undefined behaviour

---
 src/OpenMps/Grid.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/OpenMps/Grid.hpp b/src/OpenMps/Grid.hpp
index 462e2a5..f5305ba 100644
--- a/src/OpenMps/Grid.hpp
+++ b/src/OpenMps/Grid.hpp
@@ -3,6 +3,9 @@
 
 #include <iterator>
 #include <array>
+#include <cmath>
+#include <cstdint>
+#include <limits>
 #include <boost/multi_array.hpp>
 
 #include "Vector.hpp"
@@ -88,7 +91,9 @@ namespace { namespace OpenMps
 		}
 		static auto Floor(const double a, const double b)
 		{
-			return static_cast<Index>(std::floor(a / b));
+			// 整数で表せないほど遠い位置や数でない位置は、必ず領域外となる番号にする
+			const auto index = std::floor(a / b);
+			return (std::abs(index) < std::numeric_limits<std::int32_t>::max()) ? static_cast<Index>(index) : Index{ -1 };
 		}
 
 		// 最大ブロック数
-- 
2.43.0


From e0c883548d7f18fe426ef18e003daca5f8ec82d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 13/14] fix: the inverse of an asymmetric 3x3 matrix was
 transposed

---
 src/OpenMps/Computer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OpenMps/Computer.hpp b/src/OpenMps/Computer.hpp
index 5847cb1..bc70c08 100644
--- a/src/OpenMps/Computer.hpp
+++ b/src/OpenMps/Computer.hpp
@@ -412,9 +412,9 @@ namespace { namespace OpenMps
 							a00, a01,
 							a10, a11);
 
-						mat(0, 0) = +A00 / det; mat(0, 1) = -A01 / det; mat(0, 2) = +A02 / det;
-						mat(1, 0) = -A10 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A12 / det;
-						mat(2, 0) = +A20 / det; mat(2, 1) = -A21 / det; mat(2, 2) = +A22 / det;
+						mat(0, 0) = +A00 / det; mat(0, 1) = -A10 / det; mat(0, 2) = +A20 / det;
+						mat(1, 0) = -A01 / det; mat(1, 1) = +A11 / det; mat(1, 2) = -A21 / det;
+						mat(2, 0) = +A02 / det; mat(2, 1) = -A12 / det; mat(2, 2) = +A22 / det;
 
 						return mat;
 					}
-- 
2.43.0


From 585db12e4d5de7805eced8618a4720aaa5f473d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 14/14] fix: a blank line of spaces or tabs before the header
 of the particle table was refused

---
 src/OpenMps/Main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OpenMps/Main.cpp b/src/OpenMps/Main.cpp
index 252e99a..243f020 100644
--- a/src/OpenMps/Main.cpp
+++ b/src/OpenMps/Main.cpp
@@ -98,9 +98,9 @@ namespace
 		std::vector<std::string> input;
 		boost::algorithm::split(input, csv, boost::is_any_of("\n"));
 
-		// 先頭の空行は飛ばす
+		// 先頭の空行は飛ばす（空白のみの行も含む）
 		auto itr = input.cbegin();
-		for (; (itr != input.cend()) && (itr->size() == 0); ++itr) {}
+		for (; (itr != input.cend()) && boost::algorithm::all(*itr, boost::is_any_of(" \t")); ++itr) {}
 		if (itr == input.cend())
 		{
 			throw std::runtime_error("No header in input csv");
-- 
2.43.0

