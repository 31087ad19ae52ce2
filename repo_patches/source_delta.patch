From 57f2e1e2744e8181c6c1c2111539152fa6979f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 01/17] fix: parse exponent part per the documented format

Exponents with a decimal point or with four or more digits after leading
significant ones indexed the table of powers out of its bounds, and 'e'
without digits, 'einf' and 'enan' were consumed as a part of the value.
---
 include/floaxie/krosh.h | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..a811130 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -45,8 +45,12 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Exponent value, after which the following digits are not
+	 * accumulated any more (just skipped), as the conversion result can't be
+	 * affected by any greater exponent value, even if the maximum possible
+	 * number of zeros precede or follow the significant digits.
+	 */
+	constexpr int maximum_exponent_value(100000);
 
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
@@ -478,25 +482,34 @@ namespace floaxie
 	template<typename CharType> inline exponent_parse_result<CharType> parse_exponent(const CharType* str)
 	{
 		exponent_parse_result<CharType> ret;
+		ret.value = 0;
+		ret.str_end = str;
+
 		if (*str != 'e' && *str != 'E')
-		{
-			ret.value = 0;
-			ret.str_end = str;
-		}
-		else
-		{
-			++str;
+			return ret;
 
-			const auto& digit_parts(parse_digits<float>(str));
+		const CharType* cp = str + 1;
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+		const bool negative(*cp == '-');
 
-			if (!digit_parts.sign)
-				ret.value = -ret.value;
+		if (*cp == '-' || *cp == '+')
+			++cp;
 
-			ret.str_end = digit_parts.str_end;
+		// exponent character not followed by any digits isn't a part of the value
+		if (*cp < '0' || *cp > '9')
+			return ret;
+
+		for (; *cp >= '0' && *cp <= '9'; ++cp)
+		{
+			if (ret.value < maximum_exponent_value)
+				ret.value = ret.value * 10 + (*cp - '0');
 		}
 
+		if (negative)
+			ret.value = -ret.value;
+
+		ret.str_end = cp;
+
 		return ret;
 	}
 
-- 
2.43.0


From dc03f5ecba4525a7a7eaa4fb23452d322048f2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 02/17] fix: consume nothing, if the string contains no number

A lone sign, point or their combination ('+', '.', '-.') as well as an
incomplete special value ('n', '-i') were reported as consumed, yielding
(negative) zero, while one or more digits are required.
---
 include/floaxie/krosh.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index a811130..f7f6ec5 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -244,6 +244,7 @@ namespace floaxie
 
 		bool dot_set(false);
 		bool sign_set(false);
+		bool digit_set(false);
 		bool frac_calculated(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
@@ -257,6 +258,8 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digit_set = true;
+
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
@@ -273,6 +276,8 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digit_set = true;
+
 				if (zero_substring_length && parsed_digits.size() < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits.size() };
@@ -369,7 +374,10 @@ namespace floaxie
 		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
 			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);
 
-		ret.str_end = str + (pos - 1);
+		// no digits and no special value — nothing has been recognized
+		const bool recognized(digit_set || ret.special != speciality::no);
+
+		ret.str_end = recognized ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
 
 		return ret;
-- 
2.43.0


From b26afd5fc8f48aa1cc4a3303ebdd254b5873df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 03/17] fix: consume exponent part of zero value

Strings like '0e5' were consumed up to the exponent part only.
---
 include/floaxie/krosh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index f7f6ec5..7b29976 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -624,6 +624,10 @@ namespace floaxie
 
 			default:
 				ret.value = 0;
+
+				// exponent part doesn't affect zero, but still belongs to it
+				if (mp.str_end != str)
+					mp.str_end = parse_exponent(mp.str_end).str_end;
 				break;
 			}
 
-- 
2.43.0


From a3f3d613564949b3b47dcd354e96c0d2594e16d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 04/17] fix: respect sign of values exceeding the range of
 powers of ten

Overflow and underflow detected by decimal exponent returned positive
value for negative input (e.g. positive infinity for '-1e999').
---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 7b29976..ab354f3 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -596,6 +596,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From 0aaa8a10dea1556bfb1314e79e9ad8acf89cf300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 05/17] fix: detect overflow taking mantissa width into account

Binary exponent of the integer mantissa was compared to the maximum exponent
directly, so values between approximately 1.8e308 and 3e327 (3.4e38 and
1.5e48 for single precision) turned into arbitrary bit patterns.
---
 include/floaxie/diy_fp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..96d5caf 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -203,7 +203,7 @@ namespace floaxie
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
-- 
2.43.0


From a221de83171a41c0724c0654d740d4faf5db1a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 06/17] fix: carry mantissa rounding to exponent

Values rounded up to the next power of two lost the carry, e.g.
'0.99999999999999999' was parsed to 0.5.
---
 include/floaxie/diy_fp.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 96d5caf..7421c3e 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -227,9 +227,18 @@ namespace floaxie
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			const mantissa_storage_type rounded((f >> shift_amount) + round.value);
+			parts |= rounded & mantissa_mask;
+
+			// rounding up can carry to the next binary exponent
+			if (rounded == (denorm_exp > lsb_pow ? hidden_bit() : hidden_bit() << 1))
+				parts += hidden_bit();
 
 			ret.value = type_punning_cast<FloatType>(parts);
+
+			if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
+
 			ret.is_accurate = round.is_accurate;
 
 			return ret;
-- 
2.43.0


From fbba7ad3673dc84d75945a64e714078ae0aaf889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 07/17] fix: round values above a half of the least subnormal
 up to it

E.g. '3e-324' was parsed to zero with underflow status.
---
 include/floaxie/diy_fp.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 7421c3e..c8dff20 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -212,6 +212,15 @@ namespace floaxie
 
 			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size))
 			{
+				const int lost_bits(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - int(my_mantissa_size));
+
+				// more, than a half of the least denormalized value, rounds up to it
+				if (lost_bits == 1 && f > msb_value<mantissa_storage_type>())
+				{
+					ret.value = std::numeric_limits<FloatType>::denorm_min();
+					return ret;
+				}
+
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
 				return ret;
-- 
2.43.0


From 0ab9c0ff4b89c9e05b7cfe423829530cc4ab9fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 08/17] fix: don't treat representable subnormal values as
 underflow

Single precision values with decimal exponent of the last digit less than
-50 (e.g. '1.40129846e-45') were parsed to zero, though the values
themselves are in range.
---
 include/floaxie/krosh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index ab354f3..435269a 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -585,10 +585,16 @@ namespace floaxie
 				}
 				else
 				{
+					ret.is_accurate = true;
+
 					if (!b1)
 					{
 						ret.value = FloatType(0);
 						ret.status = conversion_status::underflow;
+
+						// value may be still representable, although the power itself is not
+						constexpr int zero_threshold = std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10;
+						ret.is_accurate = mp.K + static_cast<int>(decimal_q<FloatType>) <= zero_threshold;
 					}
 					else // !b2
 					{
@@ -600,7 +606,6 @@ namespace floaxie
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
 
 					return ret;
 				}
-- 
2.43.0


From c371e1b6cca96964186982ae5fd91c6cbf32fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 09/17] fix: fall back, when the error may affect rounding

Only exact halves were detected as inaccurate, while the power of ten, the
multiplication and dropped digits are imprecise, so values close to the
middle of two adjacent ones could be rounded incorrectly.
---
 include/floaxie/diy_fp.h | 17 +++++++++++++++--
 include/floaxie/krosh.h  | 21 +++++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index c8dff20..df4506c 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,13 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param error maximum absolute error of the mantissa value (in units of
+		 * its least significant bit). The conversion is considered inaccurate,
+		 * if the error is able to affect rounding.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type error = 0)
 		{
 			downsample_result ret;
 
@@ -214,6 +218,10 @@ namespace floaxie
 			{
 				const int lost_bits(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - int(my_mantissa_size));
 
+				// distance to a half of the least denormalized value
+				const mantissa_storage_type distance(lost_bits == 1 ? f - msb_value<mantissa_storage_type>() : mantissa_storage_type(0) - f);
+				ret.is_accurate = lost_bits > 2 || distance > error;
+
 				// more, than a half of the least denormalized value, rounds up to it
 				if (lost_bits == 1 && f > msb_value<mantissa_storage_type>())
 				{
@@ -248,7 +256,12 @@ namespace floaxie
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
 
-			ret.is_accurate = round.is_accurate;
+			// distance to the middle between two adjacent values
+			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+			const mantissa_storage_type distance(tail > half ? tail - half : half - tail);
+
+			ret.is_accurate = round.is_accurate && distance > error;
 
 			return ret;
 		}
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 435269a..af92ce0 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -190,7 +190,7 @@ namespace floaxie
 	template<typename FloatType, typename CharType> struct digit_parse_result
 	{
 		/** \brief Pre-initializes members to sane values. */
-		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true) { }
+		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true), truncated(false) { }
 
 		/** \brief Parsed mantissa value. */
 		typename diy_fp<FloatType>::mantissa_storage_type value;
@@ -211,6 +211,10 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag indicating if some significant digits don't fit into
+		 * `value`. */
+		bool truncated;
 	};
 
 	/** \brief Unified method to extract and parse digits in one pass.
@@ -379,6 +383,7 @@ namespace floaxie
 
 		ret.str_end = recognized ? str + (pos - 1) : str;
 		ret.K = pow_gain - fraction_digits_count;
+		ret.truncated = frac_calculated;
 
 		return ret;
 	}
@@ -404,6 +409,10 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Maximum error of the mantissa value (in units of its least
+		 * significant bit). */
+		typename diy_fp<FloatType>::mantissa_storage_type error;
 	};
 
 	/** \brief Tides up results of `parse_digits` for **Krosh** to use.
@@ -432,6 +441,10 @@ namespace floaxie
 		ret.str_end = digits_parts.str_end;
 		ret.sign = digits_parts.sign;
 
+		// covers imprecise fraction (including its digits behind the decimal
+		// point) multiplied during the normalization, and its rounding
+		ret.error = digits_parts.truncated ? 4 : 0;
+
 		if (digits_parts.special == speciality::no)
 		{
 			ret.value = diy_fp<FloatType>(digits_parts.value, 0);
@@ -582,6 +595,10 @@ namespace floaxie
 				if (b1 && b2)
 				{
 					w *= cached_power<FloatType>(mp.K);
+
+					// a half from the power itself and another half from the
+					// multiplication, doubled by possible normalization
+					mp.error = (mp.error + 1) * 2;
 				}
 				else
 				{
@@ -612,7 +629,7 @@ namespace floaxie
 			}
 
 			w.normalize();
-			const auto& v(w.downsample());
+			const auto& v(w.downsample(mp.error));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From 1319cd6bc4c815407040326a22a5b7b6cf851b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 10/17] fix: don't treat subnormal results of fallback as
 overflow

C Standard Library functions may report ERANGE for subnormal values, too.
---
 include/floaxie/default_fallback.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..e498af3 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,6 +17,8 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cwchar>
 
@@ -87,7 +89,11 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
-		return returned_value ? conversion_status::overflow : conversion_status::underflow;
+		if (std::isinf(returned_value))
+			return conversion_status::overflow;
+
+		// non-zero subnormal values may be also reported with `ERANGE`
+		return returned_value ? conversion_status::success : conversion_status::underflow;
 	}
 }
 
-- 
2.43.0


From 82979a7f02d934e09fefd44b8557648edd718506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 11/17] fix: ignore errno value set before the conversion

Range error left by any earlier unrelated call made atof() to report
overflow or underflow for values requiring fallback conversion.
---
 include/floaxie/atof.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..7fe00c4 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -18,6 +18,7 @@
 #define FLOAXIE_ATOF_H
 
 #include <string>
+#include <cerrno>
 
 #include <floaxie/krosh.h>
 
@@ -112,9 +113,16 @@ namespace floaxie
 			}
 			else
 			{
+				// only errors of the conversion itself are of interest
+				const int previous_errno = errno;
+				errno = 0;
+
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
+				if (!errno)
+					errno = previous_errno;
+
 				return result;
 			}
 		}
-- 
2.43.0


From f36d0d5ba146eb7d3c3c4896e551097296ca0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 12/17] fix: include headers the tables of powers of ten depend
 on

The headers couldn't be included on their own.
---
 include/floaxie/powers_ten_double.h | 2 ++
 include/floaxie/powers_ten_single.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index cac7efe..305024e 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -25,6 +25,8 @@
 #define FLOAXIE_POWERS_TEN_DOUBLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 #include <array>
 
 #include <floaxie/powers_ten.h>
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index 3b67d8b..f2eb0f3 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -25,6 +25,8 @@
 #define FLOAXIE_POWERS_TEN_SINGLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 
 #include <floaxie/powers_ten.h>
 
-- 
2.43.0


From d688167b494eed7b2d2b908e2e6ac2e5aab5b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 13/17] fix: let the headers be included to several translation
 units in C++14

Static data members of full specializations were defined in headers, so that
linking of two translation units including them failed.
---
 include/floaxie/powers_ten_double.h | 20 ++++++++++++++------
 include/floaxie/powers_ten_single.h | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index 305024e..a959eda 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -33,16 +33,19 @@
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for double precision
+	/** \brief Values of **powers_ten** for double precision
 	 * floating point type (`double`).
 	 *
+	 * It's a template (with its parameter unused) to let static data members be
+	 * defined in the header, which is included to several translation units.
+	 *
 	 * Significand (mantissa) type is `std::uint64_t`, exponent type is
 	 * `int` (typically 32 bit, at least 16 bit).
 	 *
 	 * Values are calculated for powers of 10 in the range of [-343, 343]
 	 * exponent.
 	 */
-	template<> struct powers_ten<double>
+	template<typename Dummy> struct powers_ten_double
 	{
 		/** \brief Pre-calculated binary 64-bit representation of mantissa of
 		 * powers of 10 in the range of [-343, 343] for single precision
@@ -412,10 +415,15 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -343, 343 };
 	};
 
-	constexpr decltype(powers_ten<double>::f) powers_ten<double>::f;
-	constexpr decltype(powers_ten<double>::e) powers_ten<double>::e;
-	constexpr std::size_t powers_ten<double>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<double>::boundaries;
+	template<typename Dummy> constexpr std::uint64_t powers_ten_double<Dummy>::f[];
+	template<typename Dummy> constexpr int powers_ten_double<Dummy>::e[];
+	template<typename Dummy> constexpr std::size_t powers_ten_double<Dummy>::pow_0_offset;
+	template<typename Dummy> constexpr std::pair<int, int> powers_ten_double<Dummy>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for double precision
+	 * floating point type (`double`).
+	 */
+	template<> struct powers_ten<double> : powers_ten_double<void> { };
 }
 
 #endif // FLOAXIE_POWERS_TEN_DOUBLE_H
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index f2eb0f3..88fb1a9 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -32,16 +32,19 @@
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for single precision
+	/** \brief Values of **powers_ten** for single precision
 	 * floating point type (`float`).
 	 *
+	 * It's a template (with its parameter unused) to let static data members be
+	 * defined in the header, which is included to several translation units.
+	 *
 	 * Significand (mantissa) type is `std::uint32_t`, exponent type is
 	 * `int` (typically 32 bit, at least 16 bit).
 	 *
 	 * Values are calculated for powers of 10 in the range of [-50, 50]
 	 * exponent.
 	 */
-	template<> struct powers_ten<float>
+	template<typename Dummy> struct powers_ten_single
 	{
 		/** \brief Pre-calculated binary 32-bit representation of mantissa of
 		 * powers of 10 in the range of [-50, 50] for single precision
@@ -269,10 +272,15 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -50, 50 };
 	};
 
-	constexpr decltype(powers_ten<float>::f) powers_ten<float>::f;
-	constexpr decltype(powers_ten<float>::e) powers_ten<float>::e;
-	constexpr std::size_t powers_ten<float>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<float>::boundaries;
+	template<typename Dummy> constexpr std::uint32_t powers_ten_single<Dummy>::f[];
+	template<typename Dummy> constexpr int powers_ten_single<Dummy>::e[];
+	template<typename Dummy> constexpr std::size_t powers_ten_single<Dummy>::pow_0_offset;
+	template<typename Dummy> constexpr std::pair<int, int> powers_ten_single<Dummy>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for single precision
+	 * floating point type (`float`).
+	 */
+	template<> struct powers_ten<float> : powers_ten_single<void> { };
 }
 
 #endif // FLOAXIE_POWERS_TEN_SINGLE_H
-- 
2.43.0


From 5930463abf4f85b7ba3661e378d668df096c9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 14/17] fix: implement printing to char16_t and char32_t

to_u16string() and to_u32string() couldn't be linked, as memory functions
were defined for char and wchar_t only.
---
 include/floaxie/memwrap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..bc0322b 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <cwchar>
+#include <string>
 
 namespace floaxie
 {
@@ -28,7 +29,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -44,7 +48,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


From 878bb17f902797d5fbbbf54b82499ebf722e1373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 15/17] fix: recognize special values regardless of locale

Letters of 'infinity' and of characters in 'nan(...)' were converted to
lower case in the current global locale: 'INFINITY' wasn't recognized
completely in Turkish one, and any character type without std::ctype
facet (e.g. char16_t) terminated the program.
---
 include/floaxie/krosh.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index af92ce0..a654d05 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -17,8 +17,8 @@
 #ifndef FLOAXIE_CROSH_H
 #define FLOAXIE_CROSH_H
 
+#include <array>
 #include <vector>
-#include <locale>
 #include <cstddef>
 #include <cmath>
 #include <cassert>
@@ -52,6 +52,18 @@ namespace floaxie
 	 */
 	constexpr int maximum_exponent_value(100000);
 
+	/** \brief Converts basic Latin letter to lower case regardless of locale.
+	 *
+	 * \param c character to convert.
+	 *
+	 * \return the character in lower case, if \p **c** is an upper case basic
+	 * Latin letter, unchanged \p **c** otherwise.
+	 */
+	template<typename CharType> constexpr CharType to_lower(CharType c) noexcept
+	{
+		return c >= 'A' && c <= 'Z' ? static_cast<CharType>(c - 'A' + 'a') : c;
+	}
+
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
 	 * Searches for either "NAN" or "NAN(<character sequence>)" form of NaN
@@ -78,7 +90,7 @@ namespace floaxie
 				do
 					++cp;
 				while ((*cp >= '0' && *cp <= '9') ||
-					   (std::tolower(*cp, std::locale()) >= 'a' && std::tolower(*cp, std::locale()) <= 'z') ||
+					   (to_lower(*cp) >= 'a' && to_lower(*cp) <= 'z') ||
 						*cp == '_');
 
 				if (*cp == ')')
@@ -115,7 +127,7 @@ namespace floaxie
 				const std::array<CharType, 4> suffix {{ 'n', 'i', 't', 'y' }};
 				auto it = suffix.cbegin();
 
-				while (it != suffix.cend() && std::tolower(*cp, std::locale()) == *it)
+				while (it != suffix.cend() && to_lower(*cp) == *it)
 				{
 					++cp;
 					++it;
-- 
2.43.0


From a051e3ec0697bf4add2db5d6a35c7bb7265f335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 16/17] fix: let allocation failures in parsing propagate as
 exceptions

---
 include/floaxie/krosh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index a654d05..ccc7a11 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -249,7 +249,7 @@ namespace floaxie
 	 * \return `digit_parse_result` with the parsing results.
 	 */
 	template<typename FloatType, typename CharType>
-	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str) noexcept
+	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str)
 	{
 		digit_parse_result<FloatType, CharType> ret;
 
-- 
2.43.0


From a01f2f26aebf0b1fe23eb4a32f0b003a0af4ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:47 +0000
Subject: [PATCH 17/17] fix: restore errno, when the fallback throws an
 exception

---
 include/floaxie/atof.h             |  6 +-----
 include/floaxie/default_fallback.h | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 7fe00c4..f9dce60 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -114,15 +114,11 @@ namespace floaxie
 			else
 			{
 				// only errors of the conversion itself are of interest
-				const int previous_errno = errno;
-				errno = 0;
+				const errno_guard guard;
 
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
-				if (!errno)
-					errno = previous_errno;
-
 				return result;
 			}
 		}
diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index e498af3..668d775 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -71,6 +71,28 @@ namespace floaxie
 		return std::wcstold(str, str_end);
 	}
 
+	/** \brief Clears `errno` for the time of the conversion and restores the
+	 * previous value afterwards (even if the conversion throws an exception),
+	 * unless the conversion has set its own one.
+	 */
+	class errno_guard
+	{
+	public:
+		errno_guard() noexcept : m_previous(errno) { errno = 0; }
+
+		~errno_guard()
+		{
+			if (!errno)
+				errno = m_previous;
+		}
+
+		errno_guard(const errno_guard&) = delete;
+		errno_guard& operator=(const errno_guard&) = delete;
+
+	private:
+		const int m_previous;
+	};
+
 	/** \brief Returns `conversion_status` based on `errno` value.
 	 *
 	 * Analyzes current value of `errno` together with the passed conversion
-- 
2.43.0

