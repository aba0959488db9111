From a7be8fe52b014e9925ea2f70ef8ad0942f90328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 01/42] fix: unterminated comment, PI, CDATA section or DOCTYPE
 subset must report the end of text

The catch-all transition of the scanner state machine included the end of
text, so that the scanner skipped over the terminating null forever (or read
beyond the end of the source in case of a char pointer).
---
 include/textwolf/xmlscanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index dce9718..c838478 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -78,6 +78,7 @@ private:
 	}
 
 	/// \brief Define a transition for all control character types not firing yet in the last state defined
+	/// \remark The end of text is not a character that can be skipped: A state has to declare a transition for it explicitely or it reports an unexpected end of text
 	/// \param [in] nextState the follow state index defined for these transitions
 	void addOtherTransition( int nextState)
 	{
@@ -85,6 +86,7 @@ private:
 		if (nextState < 0 || nextState > MaxNofStates) throw exception( InvalidParamState);
 		for (unsigned int inputchr=0; inputchr<NofControlCharacter; inputchr++)
 		{
+			if (inputchr == EndOfText) continue;
 			if (tab[ size-1].next[ inputchr] == -1) tab[ size-1].next[ inputchr] = (unsigned char)nextState;
 		}
 		tab[ size-1].nofnext = NofControlCharacter;
-- 
2.43.0


From 1c3c5585be2fec8246651ad9545c698c516dbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 02/42] fix: iterator element of an error must carry the error
 message

Element::error() returned the content of the item buffer (an arbitrary or
empty string) instead of the error string.
---
 include/textwolf/xmlscanner.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index c838478..28b9ef4 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -17,6 +17,7 @@
 #include "textwolf/traits.hpp"
 #include <map>
 #include <cstddef>
+#include <cstring>
 
 namespace textwolf {
 
@@ -1213,6 +1214,23 @@ public:
 			ElementType m_type;		///< type of the element
 			const char* m_content;		///< value string of the element
 			std::size_t m_size;		///< size of the value string in bytes
+
+			/// \brief Fetch the next element from the scanner
+			void fetch( ThisXMLScanner& input, unsigned short mask)
+			{
+				m_type = input.nextItem( mask);
+				if (m_type == ErrorOccurred)
+				{
+					// ... the content of an error element is the error message
+					m_content = getErrorString( input.error);
+					m_size = std::strlen( m_content);
+				}
+				else
+				{
+					m_content = input.getItemPtr();
+					m_size = input.getItemSize();
+				}
+			}
 		public:
 			/// \brief Check if the element does neither mark the end of document nor reports an error occurred
 			/// \return true, if the element is a valid document element
@@ -1259,9 +1277,7 @@ public:
 		{
 			if (input != 0)
 			{
-				element.m_type = input->nextItem(mask);
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				element.fetch( *input, mask);
 			}
 			return *this;
 		}
@@ -1299,9 +1315,7 @@ public:
 		{
 			if (doSkipToFirst)
 			{
-				element.m_type = input->nextItem();
-				element.m_content = input->getItemPtr();
-				element.m_size = input->getItemSize();
+				element.fetch( *input, 0xFFFF);
 			}
 		}
 		/// \brief Constructor
-- 
2.43.0


From edfb5edc97d27a5200fef883b939198df7469bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 03/42] fix: lookup of user defined entities by name

The entity map is keyed by pointer, so that the lookup with the address of
the parsed name in the scanner buffer never succeeded and every user defined
entity was reported as undefined.
---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 28b9ef4..0013f4b 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -953,7 +953,9 @@ private:
 		}
 		else if (m_entityMap)
 		{
-			EntityMap::const_iterator itr = m_entityMap->find( str);
+			// ... the keys of the map are ordered by address and not by content, therefore they have to be compared one by one
+			EntityMap::const_iterator itr = m_entityMap->begin();
+			for (; itr != m_entityMap->end() && std::strcmp( itr->first, str) != 0; ++itr) {}
 			if (itr == m_entityMap->end())
 			{
 				error = ErrUndefinedCharacterEntity;
-- 
2.43.0


From 66feda4c255563974a1a832e2e1e113aa44972f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 04/42] fix: IsoLatin-3 code page (ISO-8859-3) was shifted at
 its undefined positions

The 7 undefined bytes of ISO-8859-3 were left out of the table, so that 91
characters were decoded and encoded as their neighbours.
---
 include/textwolf/codepages.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index c4fc72c..e2c6c3e 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -40,7 +40,7 @@ private:
 			{
 				{{{0,0}}},
 				{{{260,161}, {728,162}, {321,163}, {317,165}, {346,166}, {352,169}, {350,170}, {356,171}, {377,172}, {381,174}, {379,175}, {261,177}, {731,178}, {322,179}, {318,181}, {347,182}, {711,183}, {353,185}, {351,186}, {357,187}, {378,188}, {733,189}, {382,190}, {380,191}, {340,192}, {258,195}, {313,197}, {262,198}, {268,200}, {280,202}, {282,204}, {270,207}, {272,208}, {323,209}, {327,210}, {336,213}, {344,216}, {366,217}, {368,219}, {354,222}, {341,224}, {259,227}, {314,229}, {263,230}, {269,232}, {281,234}, {283,236}, {271,239}, {273,240}, {324,241}, {328,242}, {337,245}, {345,248}, {367,249}, {369,251}, {355,254}, {729,255}, {0,0}}},
-				{{{294,161}, {728,162}, {292,165}, {304,168}, {350,169}, {286,170}, {308,171}, {379,173}, {295,175}, {293,180}, {305,183}, {351,184}, {287,185}, {309,186}, {380,188}, {266,193}, {264,194}, {288,208}, {284,211}, {364,216}, {348,217}, {267,223}, {265,224}, {289,238}, {285,241}, {365,246}, {349,247}, {729,248}, {0,0}}},
+				{{{294,161}, {728,162}, {292,166}, {304,169}, {350,170}, {286,171}, {308,172}, {379,175}, {295,177}, {293,182}, {305,185}, {351,186}, {287,187}, {309,188}, {380,191}, {266,197}, {264,198}, {288,213}, {284,216}, {364,221}, {348,222}, {267,229}, {265,230}, {289,245}, {285,248}, {365,253}, {349,254}, {729,255}, {0,0}}},
 				{{{260,161}, {312,162}, {342,163}, {296,165}, {315,166}, {352,169}, {274,170}, {290,171}, {358,172}, {381,174}, {261,177}, {731,178}, {343,179}, {297,181}, {316,182}, {711,183}, {353,185}, {275,186}, {291,187}, {359,188}, {330,189}, {382,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {298,207}, {272,208}, {325,209}, {332,210}, {310,211}, {370,217}, {360,221}, {362,222}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {299,239}, {273,240}, {326,241}, {333,242}, {311,243}, {371,249}, {361,253}, {363,254}, {729,255}, {0,0}}},
 				{{{286,208}, {304,221}, {350,222}, {287,240}, {305,253}, {351,254}, {0,0}}},
 				{{{260,161}, {274,162}, {290,163}, {298,164}, {296,165}, {310,166}, {315,168}, {272,169}, {352,170}, {358,171}, {381,172}, {362,174}, {330,175}, {261,177}, {275,178}, {291,179}, {299,180}, {297,181}, {311,182}, {316,184}, {273,185}, {353,186}, {359,187}, {382,188}, {8213,189}, {363,190}, {331,191}, {256,192}, {302,199}, {268,200}, {280,202}, {278,204}, {325,209}, {332,210}, {360,215}, {370,217}, {257,224}, {303,231}, {269,232}, {281,234}, {279,236}, {326,241}, {333,242}, {361,247}, {371,249}, {312,255}, {0,0}}},
@@ -86,7 +86,7 @@ public:
 		static const CodePage codePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379, 176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380, 340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270, 272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223, 341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271, 273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 292, 167, 168, 304, 350, 286, 308, 173, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 380, 192, 193, 194, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 294, 728, 163, 164, 65533, 292, 167, 168, 304, 350, 286, 308, 173, 65533, 379, 176, 295, 178, 179, 180, 181, 293, 183, 184, 305, 351, 287, 309, 189, 65533, 380, 192, 193, 194, 65533, 196, 266, 264, 199, 200, 201, 202, 203, 204, 205, 206, 207, 65533, 209, 210, 211, 212, 288, 214, 215, 284, 217, 218, 219, 220, 364, 348, 223, 224, 225, 226, 65533, 228, 267, 265, 231, 232, 233, 234, 235, 236, 237, 238, 239, 65533, 241, 242, 243, 244, 289, 246, 247, 285, 249, 250, 251, 252, 365, 349, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 312, 342, 164, 296, 315, 167, 168, 352, 274, 290, 358, 173, 381, 175, 176, 261, 731, 343, 180, 297, 316, 711, 184, 353, 275, 291, 359, 330, 382, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 298, 272, 325, 332, 310, 212, 213, 214, 215, 216, 370, 218, 219, 220, 360, 362, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 299, 273, 326, 333, 311, 244, 245, 246, 247, 248, 371, 250, 251, 252, 361, 363, 729}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 286, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 304, 350, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 287, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 305, 351, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 260, 274, 290, 298, 296, 310, 167, 315, 272, 352, 358, 381, 173, 362, 330, 176, 261, 275, 291, 299, 297, 311, 183, 316, 273, 353, 359, 382, 8213, 363, 331, 256, 193, 194, 195, 196, 197, 198, 302, 268, 201, 280, 203, 278, 205, 206, 207, 208, 325, 332, 211, 212, 213, 214, 360, 216, 370, 218, 219, 220, 221, 222, 223, 257, 225, 226, 227, 228, 229, 230, 303, 269, 233, 281, 235, 279, 237, 238, 239, 240, 326, 333, 243, 244, 245, 246, 361, 248, 371, 250, 251, 252, 253, 254, 312}},
@@ -97,7 +97,7 @@ public:
 		static const CodePage invcodePage[ NofCodePages] = {
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 0, 196, 0, 0, 199, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 211, 212, 0, 214, 215, 0, 0, 218, 0, 220, 221, 0, 223, 0, 225, 226, 0, 228, 0, 0, 231, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 243, 244, 0, 246, 247, 0, 0, 250, 0, 252, 253, 0, 0}},
-			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 166, 167, 0, 0, 0, 0, 172, 0, 0, 174, 0, 176, 177, 178, 179, 0, 181, 182, 0, 0, 0, 0, 187, 0, 0, 189, 190, 191, 0, 192, 0, 0, 195, 196, 197, 198, 199, 200, 201, 202, 203, 0, 204, 205, 206, 207, 0, 209, 210, 0, 212, 213, 214, 215, 0, 0, 218, 219, 220, 221, 0, 222, 0, 0, 225, 226, 227, 228, 229, 230, 231, 232, 233, 0, 234, 235, 236, 237, 0, 239, 240, 0, 242, 243, 244, 245, 0, 0, 0}},
+			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 163, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 0, 176, 0, 178, 179, 180, 181, 0, 183, 184, 0, 0, 0, 0, 189, 0, 0, 192, 193, 194, 0, 196, 0, 0, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 0, 214, 215, 0, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 0, 228, 0, 0, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 0, 246, 247, 0, 249, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 164, 0, 0, 167, 168, 0, 0, 0, 0, 173, 0, 175, 176, 0, 0, 0, 180, 0, 0, 0, 184, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 0, 0, 0, 0, 0, 212, 213, 214, 215, 216, 0, 218, 219, 220, 0, 0, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 0, 0, 0, 0, 0, 244, 245, 246, 247, 248, 0, 250, 251, 252, 0, 0, 0}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 0, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 0, 0, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 0, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 0, 0, 255}},
 			{{128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 0, 0, 0, 0, 0, 0, 167, 0, 0, 0, 0, 0, 173, 0, 0, 176, 0, 0, 0, 0, 0, 0, 183, 0, 0, 0, 0, 0, 0, 0, 0, 0, 193, 194, 195, 196, 197, 198, 0, 0, 201, 0, 203, 0, 205, 206, 207, 208, 0, 0, 211, 212, 213, 214, 0, 216, 0, 218, 219, 220, 221, 222, 223, 0, 225, 226, 227, 228, 229, 230, 0, 0, 233, 0, 235, 0, 237, 238, 239, 240, 0, 0, 243, 244, 245, 246, 0, 248, 0, 250, 251, 252, 253, 254, 0}},
-- 
2.43.0


From a590aaaba77523aeaab671be2f945b0f0031b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/42] fix: print characters specific to an IsoLatin code page
 as character

The range check before the lookup in the map of code page specific characters
compared with 1<<2 instead of 1<<16, so that they were always printed as
numeric entities.
---
 include/textwolf/codepages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/codepages.hpp b/include/textwolf/codepages.hpp
index e2c6c3e..f7cc0ae 100644
--- a/include/textwolf/codepages.hpp
+++ b/include/textwolf/codepages.hpp
@@ -132,7 +132,7 @@ public:
 		if (ch <= 255) rt = (unsigned char)m_invcd[ ch - 128];
 		if (rt == 0)
 		{
-			if (ch >= (1<<sizeof(unsigned short))) return 0;
+			if (ch > 0xFFFF) return 0;
 			std::map<unsigned short, unsigned char>::const_iterator fi = m_invovlcd->find( (unsigned short)ch);
 			if (fi == m_invovlcd->end()) return 0;
 			rt = fi->second;
-- 
2.43.0


From 44b8113511b1f969b751310dc29c3e69980516a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 06/42] fix: incomplete UTF-8 character must not swallow the
 following characters

A character that is cut off took the bytes following it (markup, or the end
of the source, so that a char pointer source was read beyond its terminating
null), and skipping a character stepped over bytes not yet available at the
end of a chunk of the source iterator.
---
 include/textwolf/charset_utf8.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index ac781ec..160d5c7 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -87,12 +87,19 @@ struct UTF8
 		return charLengthTab[ (unsigned char)buf[ 0]];
 	}
 
+	/// \brief Evaluate if a byte is a follow byte of a multibyte character
+	/// \remark A character that is not complete ends before the first byte that cannot belong to it. Especially the end of the source is never skipped
+	static inline bool isFollowByte( char ch)
+	{
+		return ((unsigned char)ch & B11000000) == B10000000;
+	}
+
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
 	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
 		unsigned int bufsize = size( buf, bufpos, itr);
-		for (;bufpos < bufsize; ++bufpos)
+		for (;bufpos < bufsize && isFollowByte( *itr); ++bufpos)
 		{
 			++itr;
 		}
@@ -122,7 +129,7 @@ struct UTF8
 			++bufpos;
 		}
 		unsigned int bufsize = size( buf, bufpos, itr);
-		for (;bufpos < bufsize; ++bufpos)
+		for (;bufpos < bufsize && isFollowByte( *itr); ++bufpos)
 		{
 			buf[ bufpos] = *itr;
 			++itr;
@@ -139,7 +146,7 @@ struct UTF8
 		if (res > 127)
 		{
 			int gg = bufpos-2;
-			if (gg < 0) return MaxChar;
+			if (gg < 0 || bufpos < size( buf, bufpos, itr)) return MaxChar;
 
 			res = ((unsigned char)buf[0])&(B00011111>>gg);
 			for (int ii=0; ii<=gg; ii++)
-- 
2.43.0


From 5fe7b88bb79268f2d7cecf8251609c7b4f0b4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 07/42] fix: skipping or copying a character not fetched yet at
 the end of a chunk

CharSet::skip incremented the iterator without accessing it, so that bytes
not yet available in the chunk of a source iterator were counted as skipped
and the stream went out of sync. UTF16::fetchbytes fetched only the first
half of a surrogate pair.
---
 include/textwolf/charset_isolatin.hpp |  8 ++----
 include/textwolf/charset_ucs.hpp      | 14 +++-------
 include/textwolf/charset_utf16.hpp    | 37 +++++++++++----------------
 3 files changed, 21 insertions(+), 38 deletions(-)

diff --git a/include/textwolf/charset_isolatin.hpp b/include/textwolf/charset_isolatin.hpp
index 1b83e9f..24a91ae 100644
--- a/include/textwolf/charset_isolatin.hpp
+++ b/include/textwolf/charset_isolatin.hpp
@@ -35,13 +35,9 @@ struct IsoLatin :public IsoLatinCodePage
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		if (bufpos==0)
-		{
-			++itr;
-			++bufpos;
-		}
+		fetchbytes( buf, bufpos, itr);
 	}
 
 	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
diff --git a/include/textwolf/charset_ucs.hpp b/include/textwolf/charset_ucs.hpp
index 8418ccb..a023521 100644
--- a/include/textwolf/charset_ucs.hpp
+++ b/include/textwolf/charset_ucs.hpp
@@ -41,12 +41,9 @@ struct UCS2
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		for (;bufpos < 2; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr);
 	}
 
 	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
@@ -166,12 +163,9 @@ struct UCS4
 
 	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char*, unsigned int& bufpos, Iterator& itr)
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		for (;bufpos < 4; ++bufpos)
-		{
-			++itr;
-		}
+		fetchbytes( buf, bufpos, itr);
 	}
 
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index 7ffbffc..dffa9ce 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -50,24 +50,6 @@ public:
 	};
 
 public:
-	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
-	template <class Iterator>
-	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
-	{
-		if (bufpos<2)
-		{
-			if (bufpos<1)
-			{
-				buf[0] = *itr;
-				++itr;
-				++bufpos;
-			}
-			buf[1] = *itr;
-			++itr;
-			++bufpos;
-		}
-	}
-
 	/// \brief Get the size of the current character in bytes (variable length encoding)
 	/// \param [in] buf buffer for the character data
 	/// \param [in,out] bufpos position in 'buf'
@@ -75,8 +57,11 @@ public:
 	template <class Iterator>
 	static inline unsigned int size( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
-		fetchbytes( buf, bufpos, itr);
-
+		for (;bufpos < 2; ++bufpos)
+		{
+			buf[ bufpos] = *itr;
+			++itr;
+		}
 		UChar rt = (unsigned char)buf[ MSB];
 		if ((rt - 0xD8) > 0x03)
 		{
@@ -88,17 +73,25 @@ public:
 		}
 	}
 
-	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
+	/// \brief See template<class Iterator>Interface::fetchbytes(char*,unsigned int&,Iterator&)
 	template <class Iterator>
-	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
+	static inline void fetchbytes( char* buf, unsigned int& bufpos, Iterator& itr)
 	{
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize; ++bufpos)
 		{
+			buf[ bufpos] = *itr;
 			++itr;
 		}
 	}
 
+	/// \brief See template<class Iterator>Interface::skip(char*,unsigned int&,Iterator&)
+	template <class Iterator>
+	static inline void skip( char* buf, unsigned int& bufpos, Iterator& itr)
+	{
+		fetchbytes( buf, bufpos, itr);
+	}
+
 	/// \brief See template<class Iterator>Interface::asciichar(char*,unsigned int&,Iterator&)
 	template <class Iterator>
 	static inline signed char asciichar( char* buf, unsigned int& bufpos, Iterator& itr)
-- 
2.43.0


From 39cf79b98c0bf33dbc6761e3db292bd6f9ecbf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 08/42] fix: check of the low surrogate in UTF-16

A value below the range of low surrogates passed the check because of the
integer promotion to a signed type.
---
 include/textwolf/charset_utf16.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/charset_utf16.hpp b/include/textwolf/charset_utf16.hpp
index dffa9ce..f191b62 100644
--- a/include/textwolf/charset_utf16.hpp
+++ b/include/textwolf/charset_utf16.hpp
@@ -121,7 +121,7 @@ public:
 			rt -= 0xD800;
 			rt *= 0x400;
 			unsigned short lo = (unsigned char)buf[ 2+MSB];
-			if ((lo - 0xDC) > 0x03) return 0xFFFF;
+			if ((unsigned int)(lo - 0xDC) > 0x03) return 0xFFFF;
 			lo = (lo << 8) + (unsigned char)buf[ 2+LSB];
 			return rt + lo - 0xDC00 + 0x010000;
 		}
-- 
2.43.0


From 7e57824bfc25145a87845ea876883a004a12781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 09/42] fix: CDATA section ending with ']]]>'

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 0013f4b..22cafb4 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -356,7 +356,7 @@ public:
 			[ CDATA    ].action(ExpectIdentifierCDATA)(Osb,CDATA1).miss(ErrExpectedCDATATag)
 			[ CDATA1   ](Csb,CDATA2).other(CDATA1)
 			[ CDATA2   ](Csb,CDATA3).other(CDATA1)
-			[ CDATA3   ](Gt,CONTENT).other(CDATA1)
+			[ CDATA3   ](Gt,CONTENT)(Csb).other(CDATA1)
 			[ EXIT     ].action(Return,Exit);
 		}
 	};
-- 
2.43.0


From 7327124c767854af6adbfefd23db5d5753c53a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 10/42] fix: question mark inside of a processing instruction

A question mark that is not followed by '>' is part of the processing
instruction and not an error.
---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 22cafb4..7f100a9 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -314,7 +314,7 @@ public:
 			[ STARTTAG ](EndOfLine)(Cntrl)(Space)(Questm,XTAG)(Exclam,ENTITYSL).fallback(OPENTAG)
 			[ XTAG     ].action(ExpectIdentifierXML)(EndOfLine,Cntrl,Space,XTAGAISK)(Questm,XTAGEND).miss(ErrExpectedXMLTag)
 			[ PITAG    ](Questm,PITAGEND).other(PITAG)
-			[ PITAGEND ](Gt,CONTENT).miss(ErrExpectedTagEnd)
+			[ PITAGEND ](Gt,CONTENT)(Questm).other(PITAG)
 			[ XTAGEND  ](Gt,XTAGDONE)(EndOfLine)(Cntrl)(Space).miss(ErrExpectedTagEnd)
 			[ XTAGDONE ].action(Return,HeaderEnd).fallback(DOCSTART)
 			[ XTAGAISK ](EndOfLine)(Cntrl)(Space)(Questm,XTAGEND).fallback(XTAGANAM)
-- 
2.43.0


From 73af259ff0c9cef8dc77a4eb8b79589301066ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 11/42] fix: exception text of the causes after
 NotAllowedOperation

---
 include/textwolf/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index bb70225..4ee5f25 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -74,7 +74,7 @@ struct exception	:public std::runtime_error
 		static const char* nameCause[ 17] = {
 			"Unknown","DimOutOfRange","StateNumbersNotAscending","InvalidParamState",
 			"InvalidParamChar","DuplicateStateTransition","InvalidState","IllegalParam",
-			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation"
+			"IllegalAttributeName","OutOfMem","ArrayBoundsReadWrite","NotAllowedOperation",
 			"FileReadError","IllegalXmlHeader","InvalidTagOffset","CorruptTagStack",
 			"CodePageIndexNotSupported"
 		};
-- 
2.43.0


From 78c5c29c442b50d184e344e8a20b4f9fcc823b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 12/42] fix: construction, assignment and failing construction
 of IStreamIterator

---
 include/textwolf/istreamiterator.hpp | 34 ++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 7d2b257..16cc4d5 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -15,6 +15,7 @@
 #include <iostream>
 #include <fstream>
 #include <iterator>
+#include <algorithm>
 #include <cstdlib>
 #include <cerrno>
 #include <cstring>
@@ -97,7 +98,8 @@ class IStreamIterator
 {
 public:
 	/// \brief Default constructor
-	IStreamIterator(){}
+	IStreamIterator()
+		:m_input(0),m_buf(0),m_bufsize(0),m_readsize(0),m_readpos(0),m_abspos(0){}
 	/// \brief Destructor
 	~IStreamIterator()
 	{
@@ -110,7 +112,15 @@ public:
 		:m_input(input),m_buf((char*)std::malloc(bufsize)),m_bufsize(bufsize),m_readsize(0),m_readpos(0),m_abspos(0)
 	{
 		if (!m_buf) throw std::bad_alloc();
-		fillbuf();
+		try
+		{
+			fillbuf();
+		}
+		catch (...)
+		{
+			std::free( m_buf);
+			throw;
+		}
 	}
 
 	/// \brief Copy constructor
@@ -118,8 +128,23 @@ public:
 	IStreamIterator( const IStreamIterator& o)
 		:m_input(o.m_input),m_buf((char*)std::malloc(o.m_bufsize)),m_bufsize(o.m_bufsize),m_readsize(o.m_readsize),m_readpos(o.m_readpos),m_abspos(o.m_abspos)
 	{
-		if (!m_buf) throw std::bad_alloc();
-		std::memcpy( m_buf, o.m_buf, o.m_readsize);
+		if (o.m_bufsize && !m_buf) throw std::bad_alloc();
+		if (o.m_readsize) std::memcpy( m_buf, o.m_buf, o.m_readsize);
+	}
+
+	/// \brief Assignment operator
+	/// \param [in] o iterator to copy
+	/// \return *this
+	IStreamIterator& operator=( const IStreamIterator& o)
+	{
+		IStreamIterator tmp( o);
+		std::swap( m_input, tmp.m_input);
+		std::swap( m_buf, tmp.m_buf);
+		std::swap( m_bufsize, tmp.m_bufsize);
+		std::swap( m_readsize, tmp.m_readsize);
+		std::swap( m_readpos, tmp.m_readpos);
+		std::swap( m_abspos, tmp.m_abspos);
+		return *this;
 	}
 
 	/// \brief Element access
@@ -157,6 +182,7 @@ private:
 	bool fillbuf()
 	{
 		m_abspos += m_readsize;
+		if (!m_input) return false;
 		m_readsize = m_input->read( m_buf, m_bufsize);
 		m_readpos = 0;
 		if (m_input->errorcode()) throw exception( FileReadError);
-- 
2.43.0


From ff8eaa99dff45b5062955f331da86ddbefcc93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 13/42] fix: failing read of a std::istream must be reported if
 errno is not set

---
 include/textwolf/istreamiterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 16cc4d5..48a7af7 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -57,6 +57,7 @@ public:
 		try
 		{
 			m_errno = 0;
+			errno = 0;
 			m_input->read( (char*)buf, bufsize);
 			return m_input->gcount();
 		}
@@ -69,13 +70,13 @@ public:
 			}
 			else
 			{
-				m_errno = errno;
+				m_errno = errno?errno:EIO;
 				return 0;
 			}
 		}
 		catch (...)
 		{
-			m_errno = errno;
+			m_errno = errno?errno:EIO;
 			return 0;
 		}
 	}
-- 
2.43.0


From 95dbe01ea3cb57b4f3650443e3e664869496ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 14/42] fix: copy and assignment of StaticBuffer

---
 include/textwolf/staticbuffer.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 48d47a1..540d976 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -16,6 +16,7 @@
 #include <cstdlib>
 #include <stdexcept>
 #include <new>
+#include <algorithm>
 
 namespace textwolf {
 
@@ -45,7 +46,7 @@ public:
 		:m_pos(o.m_pos)
 		,m_size(o.m_size)
 		,m_ar(0)
-		,m_allocated(o.m_allocated)
+		,m_allocated(true)
 		,m_overflow(o.m_overflow)
 	{
 		m_ar = (char*)std::malloc( m_size * sizeof(char));
@@ -53,6 +54,20 @@ public:
 		std::memcpy( m_ar, o.m_ar, m_size);
 	}
 
+	/// \brief Assignment operator
+	/// \param[in] o object to copy
+	/// \return *this
+	StaticBuffer& operator=( const StaticBuffer& o)
+	{
+		StaticBuffer tmp( o);
+		std::swap( m_pos, tmp.m_pos);
+		std::swap( m_size, tmp.m_size);
+		std::swap( m_ar, tmp.m_ar);
+		std::swap( m_allocated, tmp.m_allocated);
+		std::swap( m_overflow, tmp.m_overflow);
+		return *this;
+	}
+
 	/// \brief Destructor
 	~StaticBuffer()
 	{
-- 
2.43.0


From 0ca7ab441afbbdb044ca3cdf200a55acd150950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 15/42] fix: bounds of the element access of StaticBuffer

---
 include/textwolf/staticbuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 540d976..87964c2 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -138,7 +138,7 @@ public:
 	/// \return the character at this position
 	char operator []( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
@@ -147,7 +147,7 @@ public:
 	/// \return the reference to the character at this position
 	char& at( std::size_t ii) const
 	{
-		if (ii > m_pos) throw exception( DimOutOfRange);
+		if (ii >= m_pos) throw exception( DimOutOfRange);
 		return m_ar[ii];
 	}
 
-- 
2.43.0


From 14622d8ab938c6e433698416f99bc4bb5694c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 16/42] fix: tag stack size after a failed reallocation

---
 include/textwolf/xmltagstack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index 2732ae0..bdc64ac 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -53,12 +53,13 @@ public:
 		std::size_t ofs = nn + align + sizeof( std::size_t);
 		if (m_pos + ofs > m_size)
 		{
-			while (m_pos + ofs > m_size) m_size *= 2;
-			if (m_pos + ofs > m_size) throw std::bad_alloc();
+			std::size_t newsize = m_size;
+			while (m_pos + ofs > newsize) newsize *= 2;
 			if (nn > ofs) throw exception( InvalidTagOffset);
-			char* xx = (char*)std::realloc( m_ptr, m_size);
+			char* xx = (char*)std::realloc( m_ptr, newsize);
 			if (!xx) throw std::bad_alloc();
 			m_ptr = xx;
+			m_size = newsize;
 		}
 		std::memcpy( m_ptr + m_pos, pp, nn);
 		m_pos += ofs;
-- 
2.43.0


From f12a3bfa4dee2479509305c11804c56ee4190357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 17/42] fix: assignment of the tag stack (and of the XML
 printer)

---
 include/textwolf/xmltagstack.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/textwolf/xmltagstack.hpp b/include/textwolf/xmltagstack.hpp
index bdc64ac..1a1a701 100644
--- a/include/textwolf/xmltagstack.hpp
+++ b/include/textwolf/xmltagstack.hpp
@@ -13,6 +13,8 @@
 #include "textwolf/exception.hpp"
 #include <cstring>
 #include <cstdlib>
+#include <new>
+#include <algorithm>
 
 /// \namespace textwolf
 /// \brief Toplevel namespace of the library
@@ -44,6 +46,16 @@ public:
 		std::memcpy( m_ptr, o.m_ptr, m_pos);
 	}
 
+	/// \brief Assignment operator
+	TagStack& operator=( const TagStack& o)
+	{
+		TagStack tmp( o);
+		std::swap( m_ptr, tmp.m_ptr);
+		std::swap( m_pos, tmp.m_pos);
+		std::swap( m_size, tmp.m_size);
+		return *this;
+	}
+
 	/// \brief Push a tag on top
 	/// \param[out] pp pointer to tag value to push
 	/// \param[out] nn size of tag value to push in bytes
-- 
2.43.0


From 1d88cbbde0c9322c2fe840c6228dea0626102729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 18/42] fix: header and doctype printed with an application
 character set that is not ASCII compatible

---
 include/textwolf/xmlprinter.hpp | 61 +++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 8fa7be8..1dfd36e 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -170,17 +170,17 @@ public:
 			return false;
 		}
 		std::string enc = encoding?encoding:"UTF-8";
-		printToBuffer( "<?xml version=\"1.0\" encoding=\"", 30, buf);
-		printToBuffer( enc.c_str(), enc.size(), buf);
+		printLiteral( "<?xml version=\"1.0\" encoding=\"", buf);
+		printLiteral( enc.c_str(), buf);
 		if (standalone)
 		{
-			printToBuffer( "\" standalone=\"", 14, buf);
-			printToBuffer( standalone, std::strlen(standalone), buf);
-			printToBuffer( "\"?>\n", 4, buf);
+			printLiteral( "\" standalone=\"", buf);
+			printLiteral( standalone, buf);
+			printLiteral( "\"?>\n", buf);
 		}
 		else
 		{
-			printToBuffer( "\"?>\n", 4, buf);
+			printLiteral( "\"?>\n", buf);
 		}
 		m_state = Content;
 		return true;
@@ -203,27 +203,27 @@ public:
 					m_lasterror = "defined DOCTYPE with PUBLIC id but no SYSTEM id";
 					return false;
 				}
-				printToBuffer( "<!DOCTYPE ", 10, buf);
-				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " PUBLIC \"", 9, buf);
-				printToBuffer( publicid, std::strlen( publicid), buf);
-				printToBuffer( "\" \"", 3, buf);
-				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printLiteral( "<!DOCTYPE ", buf);
+				printCString( rootid, buf);
+				printLiteral( " PUBLIC \"", buf);
+				printCString( publicid, buf);
+				printLiteral( "\" \"", buf);
+				printCString( systemid, buf);
+				printLiteral( "\">", buf);
 			}
 			else if (systemid)
 			{
-				printToBuffer( "<!DOCTYPE ", 10, buf);
-				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( " SYSTEM \"", 9, buf);
-				printToBuffer( systemid, std::strlen( systemid), buf);
-				printToBuffer( "\">", 2, buf);
+				printLiteral( "<!DOCTYPE ", buf);
+				printCString( rootid, buf);
+				printLiteral( " SYSTEM \"", buf);
+				printCString( systemid, buf);
+				printLiteral( "\">", buf);
 			}
 			else
 			{
-				printToBuffer( "<!DOCTYPE ", 11, buf);
-				printToBuffer( rootid, std::strlen( rootid), buf);
-				printToBuffer( ">", 2, buf);
+				printLiteral( "<!DOCTYPE ", buf);
+				printCString( rootid, buf);
+				printLiteral( ">", buf);
 			}
 		}
 		return true;
@@ -361,6 +361,25 @@ public:
 		return m_lasterror;
 	}
 
+private:
+	/// \brief Print a string of ASCII characters (markup) independent of the application character set encoding
+	void printLiteral( const char* str, BufferType& buf) const
+	{
+		for (; *str; ++str) printToBuffer( *str, buf);
+	}
+
+	/// \brief Print a null terminated string in the application character set encoding
+	void printCString( const char* str, BufferType& buf) const
+	{
+		TextScanner<const char*,AppCharset> ts( str);
+		UChar ch;
+		while ((ch = ts.chr()) != 0)
+		{
+			m_output.print( ch, buf);
+			++ts;
+		}
+	}
+
 private:
 	State m_state;					///< internal state
 	TagStack m_tagstack;				///< tag name stack of open tags
-- 
2.43.0


From a664f46937f1b478f36642b368c055ea30fc75e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 19/42] fix: carriage return in content must be printed as
 entity (would be read back as newline)

---
 include/textwolf/xmlprinter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 1dfd36e..9f7d96d 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -117,8 +117,8 @@ public:
 	void printToBufferContent( const char* src, std::size_t srcsize, BufferType& buf) const
 	{
 		enum {nof_echr = 6};
-		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;"};
-		static const char echr[nof_echr+1] = "<>&\0\b";
+		static const char* estr[nof_echr] = {"&lt;", "&gt;", "&amp;", "&#0;", "&#8;", "&#13;"};
+		static const char echr[nof_echr+1] = "<>&\0\b\r";
 		printToBufferSubstChr( src, srcsize, buf, nof_echr, echr, estr);
 	}
 
-- 
2.43.0


From f033a0808c35e8fa540e42714d9671bd039d8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 20/42] fix: printer calls not allowed must be rejected with an
 error (attribute without value)

---
 include/textwolf/xmlprinter.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index 9f7d96d..c2a492e 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -241,6 +241,11 @@ public:
 				m_lasterror = "printed xml without root element";
 				return false;
 			}
+			if (m_state == TagAttribute)
+			{
+				m_lasterror = "attribute without value";
+				return false;
+			}
 			printToBuffer( '>', buf);
 			m_state = Content;
 		}
@@ -278,6 +283,7 @@ public:
 			m_state = TagAttribute;
 			return true;
 		}
+		m_lasterror = "printing attribute outside of an open tag";
 		return false;
 	}
 
@@ -311,6 +317,7 @@ public:
 
 		if (!m_tagstack.top( cltag, cltagsize) || !cltagsize)
 		{
+			m_lasterror = "printing close tag without open tag";
 			return false;
 		}
 		if (m_state == TagElement)
@@ -321,6 +328,7 @@ public:
 		}
 		else if (m_state != Content)
 		{
+			m_lasterror = "attribute without value";
 			return false;
 		}
 		else
-- 
2.43.0


From 9513acdea9df99d0a2e6937f684f4b2b5a1530d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 21/42] fix: DOCTYPE printed inside of an element or before the
 xml header

---
 include/textwolf/xmlprinter.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/textwolf/xmlprinter.hpp b/include/textwolf/xmlprinter.hpp
index c2a492e..211a2c6 100644
--- a/include/textwolf/xmlprinter.hpp
+++ b/include/textwolf/xmlprinter.hpp
@@ -194,6 +194,11 @@ public:
 	/// \return true on success, false if failed (check lasterror())
 	bool printDoctype( const char* rootid, const char* publicid, const char* systemid, BufferType& buf)
 	{
+		if (m_state != Content || !m_tagstack.empty())
+		{
+			m_lasterror = "printing DOCTYPE not between the xml header and the root element";
+			return false;
+		}
 		if (rootid)
 		{
 			if (publicid)
-- 
2.43.0


From 1606d67951eea409172c270e8c83e37d81b309d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 22/42] fix: copy of the XML header parser looses encoding and
 error

---
 include/textwolf/xmlhdrparser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlhdrparser.hpp b/include/textwolf/xmlhdrparser.hpp
index 12de679..1093d85 100644
--- a/include/textwolf/xmlhdrparser.hpp
+++ b/include/textwolf/xmlhdrparser.hpp
@@ -42,7 +42,9 @@ public:
 		,m_charsConsumed(o.m_charsConsumed)
 		,m_zeroCount(o.m_zeroCount)
 		,m_item(o.m_item)
-		,m_src(o.m_src){}
+		,m_src(o.m_src)
+		,m_encoding(o.m_encoding)
+		,m_lasterror(o.m_lasterror){}
 
 
 	/// \brief Add another input chunk to process
-- 
2.43.0


From 9a45cda7412fc9ee1d719596b608a3c66a6cbed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 23/42] fix: copy of the XML scanner looses the state of the
 token parsed and the output character set

---
 include/textwolf/xmlscanner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 7f100a9..950aefb 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1022,11 +1022,13 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o scanner to copy
 	XMLScanner( const XMLScanner& o)
-		:state(o.state)
+		:tokstate(o.tokstate)
+		,state(o.state)
 		,error(o.error)
 		,m_src(o.m_src)
 		,m_entityMap(o.m_entityMap)
 		,m_outputBuf(o.m_outputBuf)
+		,m_output(o.m_output)
 		,m_tokenpos(o.m_tokenpos)
 	{}
 
-- 
2.43.0


From b66d561b43895c438c9473c9edc4374c85fb7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 24/42] fix: copy of the XML path selection looses the context

---
 include/textwolf/xmlpathselect.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 7a44e1c..0323a0f 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -64,7 +64,7 @@ private:
 		unsigned int scope_iter;		//< position of currently visited token in the active scope
 
 		/// \brief Constructor
-		Context()				:type(XMLScannerBase::Content),key(0),keysize(0) {}
+		Context()				:type(XMLScannerBase::Content),key(0),keysize(0),scope_iter(0) {}
 
 		/// \brief Initialization
 		/// \param [in] p_type type of the current element processed
@@ -333,7 +333,7 @@ public:
 	/// \brief Copy constructor
 	/// \param [in] o element to copy
 	XMLPathSelect( const XMLPathSelect& o)
-		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens){}
+		:atm(o.atm),scopestk(o.scopestk),follows(o.follows),triggers(o.triggers),tokens(o.tokens),context(o.context){}
 
 	/// \class iterator
 	/// \brief input iterator for the output of this XMLScanner
-- 
2.43.0


From d2da9e03d36307d2b8c9870958510e336f8c0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 25/42] fix: scope closed more than once if an iterator on the
 selected elements of a close tag was copied

---
 include/textwolf/xmlpathselect.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 0323a0f..2e55874 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -116,6 +116,8 @@ private:
 	/// \param [in] keysize size of the key in bytes
 	void initProcessElement( XMLScannerBase::ElementType type, const char* key, int keysize)
 	{
+		//the scope of the last element is closed with the next element, because there might be more than one iterator on the results
+		closeProcessElement();
 		if (context.type == XMLScannerBase::OpenTag)
 		{
 			//last step of open scope has to be done after all tokens were visited,
@@ -300,6 +302,13 @@ public:
 	void getTokenTypeMatchingStates( XMLScannerBase::ElementType type, bool withFollows, Buffer& buf) const
 	{
 		unsigned int ti = context.scope.range.tokenidx_to, te = tokens.size();
+		unsigned int fe = context.scope.range.followidx;
+		if (!scopestk.empty() && (context.type == XMLScannerBase::CloseTag || context.type == XMLScannerBase::CloseTagIm))
+		{
+			//the current scope is already left
+			ti = te = scopestk.back().range.tokenidx_to;
+			fe = scopestk.back().range.followidx;
+		}
 		for (; ti<te; ++ti)
 		{
 			const Token& tk = tokens[ (std::size_t)ti];
@@ -310,7 +319,7 @@ public:
 		}
 		if (withFollows)
 		{
-			ti=0; te = context.scope.range.followidx;
+			ti=0; te = fe;
 			for (; ti<te; ++ti)
 			{
 				if (tokens[ follows[ ti]].core.mask.matches( type))
@@ -401,11 +410,6 @@ public:
 			skip();
 		}
 
-		~iterator()
-		{
-			if (input) input->closeProcessElement();
-		}
-
 		/// \brief Default constructor
 		iterator()
 			:element(0),input(0) {}
-- 
2.43.0


From 5e306ae7a709858af256a904df2d4a849c3a0dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 26/42] fix: element index counted twice for every element
 selected

---
 include/textwolf/xmlpathselect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index 2e55874..df4bb55 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -208,7 +208,7 @@ private:
 						}
 					}
 				}
-				else
+				else if (tk->core.typeidx == 0)
 				{
 					produce( tokenidx, st);
 					tk = &tokens[ tokenidx];
-- 
2.43.0


From a666bfd1bfb9b181d243b1b7328a16a4d8f840ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 27/42] fix: search for an attribute in all descendants must
 not stop with the first content

---
 include/textwolf/xmlpathselect.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathselect.hpp b/include/textwolf/xmlpathselect.hpp
index df4bb55..eb71eb5 100644
--- a/include/textwolf/xmlpathselect.hpp
+++ b/include/textwolf/xmlpathselect.hpp
@@ -236,8 +236,9 @@ private:
 					}
 				}
 			}
-			if (tk->core.mask.rejects( context.type))
+			if (tk->core.mask.rejects( context.type) && !(tk->core.follow && context.type == XMLScannerBase::Content))
 			{
+				//... content does not stop the search for attributes in descendants
 				//The token must not match anymore after encountering a reject item
 				tk->core.mask.reset();
 			}
-- 
2.43.0


From f16534fcd1890e243062ef293c150733de9919ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 28/42] fix: invalid numeric entities must be printed verbatim

---
 include/textwolf/xmlscanner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 950aefb..6a9a045 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -584,6 +584,7 @@ private:
 			case TokState::ParsingNumericBaseEntity:
 				push('&');
 				push('#');
+				if (tokstate.base == 16) push('x');
 				for (unsigned int ii=0; ii<tokstate.pos; ii++) push( tokstate.buf[ii]);
 				break;
 			case TokState::ParsingNamedEntity:
@@ -645,7 +646,6 @@ private:
 			{
 				if (tokstate.value > 0xFFFFFFFF)
 				{
-					tokstate.buf[ tokstate.pos++] = ch;
 					fallbackEntity();
 					return true;
 				}
-- 
2.43.0


From 1a5755b412c47b1056d139d3841cb6188e7cf111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 29/42] fix: keys of path expressions with entities, spaces or
 more than 1K bytes cut or matched wrong

---
 include/textwolf/xmlpathautomaton.hpp | 6 +++++-
 include/textwolf/xmlscanner.hpp       | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 67cf83b..a814073 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -582,6 +582,7 @@ public:
 		PathElement& doSelect( Operation op, const char* value)
 		{
 			static XMLScannerBase::IsTagCharMap isTagCharMap;
+			static XMLScannerBase::IsContentCharMap isContentCharMap;
 			if (xs != 0)
 			{
 				if (value)
@@ -590,7 +591,10 @@ public:
 					StaticBuffer pb( buf, sizeof(buf));
 					char* itr = const_cast<char*>(value);
 					typedef XMLScanner<char*,CharSet,CharSet,StaticBuffer> StaticXMLScanner;
-					if (!StaticXMLScanner::parseStaticToken( isTagCharMap, itr, pb))
+					const XMLScannerBase::IsTokenCharMap& isTokenCharMap = (op == ThisAttributeValue)
+							?(const XMLScannerBase::IsTokenCharMap&)isContentCharMap
+							:(const XMLScannerBase::IsTokenCharMap&)isTagCharMap;
+					if (!StaticXMLScanner::parseStaticToken( isTokenCharMap, itr, pb) || pb.overflow())
 					{
 						throw exception( IllegalAttributeName);
 					}
diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 6a9a045..9a41426 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -536,6 +536,7 @@ private:
 	static UChar parseStaticNumericEntityValue( InputReader& ir)
 	{
 		EChar value = 0;
+		ir.skip(); //... skip '&'
 		unsigned char ch = ir.ascii();
 		unsigned int base;
 		if (ch != '#') return 0;
@@ -826,10 +827,11 @@ public:
 				else if (ch == Amp)
 				{
 					pc = parseStaticNumericEntityValue( ir);
+					if (!pc) return false;
 				}
 				else
 				{
-					return true;
+					return (ch == EndOfText);
 				}
 				output.print( pc, buf);
 				ir.skip();
-- 
2.43.0


From 824f8c7214f36a3d9dbb856cfa31bcb9feff6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 30/42] fix: characters beyond ASCII taken as operators in path
 expressions

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 3455af4..83219e0 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -282,7 +282,7 @@ private:
 		if (src.control() == Undef || src.control() == Any)
 		{
 			static const char opchr[] = "*~/(){}[]@,;";
-			return (0==std::strchr( opchr, *src));
+			return (*src >= 128 || 0==std::strchr( opchr, (int)*src));
 		}
 		return false;
 	}
-- 
2.43.0


From 64c90cffa8bf6a855b527c08109052b72cd4a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 31/42] fix: missing termination of keys in path expressions
 for automatons with a multibyte character set

---
 include/textwolf/xmlpathautomatonparse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 83219e0..87324b6 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -301,6 +301,7 @@ private:
 			{
 				atmcharset->print( *src, idlist.back());
 			}
+			idlist.back().append( 4, '\0'); //... null character in any character set of the automaton
 			return idlist.back().c_str();
 		}
 		const char* parseValue( SrcScanner& src)
@@ -314,6 +315,7 @@ private:
 					atmcharset->print( *src, idlist.back());
 				}
 				if (*src) ++src;
+				idlist.back().append( 4, '\0');
 				return idlist.back().c_str();
 			}
 			else if (isIdentifierChar(src))
-- 
2.43.0


From c71f3d609a5c9f5800ed8bedf4e207049b1c37b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 32/42] fix: failing copy and assignment of automaton states

---
 include/textwolf/xmlpathautomaton.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index a814073..bd88302 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -23,6 +23,7 @@
 #include <map>
 #include <cstddef>
 #include <stdexcept>
+#include <algorithm>
 
 namespace textwolf {
 
@@ -233,7 +234,29 @@ public:
 		State( const State& orig)
 			:core(orig.core),keysize(orig.keysize),key(0),srckey(0),next(orig.next),link(orig.link)
 		{
-			defineKey( orig.keysize, orig.key, orig.srckey);
+			try
+			{
+				defineKey( orig.keysize, orig.key, orig.srckey);
+			}
+			catch (...)
+			{
+				if (key) delete [] key;
+				throw;
+			}
+		}
+
+		///\brief Assignment operator
+		///\param [in] orig element to copy
+		State& operator=( const State& orig)
+		{
+			State tmp( orig);
+			std::swap( core, tmp.core);
+			std::swap( keysize, tmp.keysize);
+			std::swap( key, tmp.key);
+			std::swap( srckey, tmp.srckey);
+			std::swap( next, tmp.next);
+			std::swap( link, tmp.link);
+			return *this;
 		}
 
 		///\brief Destructor
-- 
2.43.0


From 57e1e0a95461926eda168d53f2b7f3aabcddfe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 33/42] fix: dangling link in the automaton after a failed
 memory allocation

---
 include/textwolf/xmlpathautomaton.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index bd88302..7e2c1c5 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -484,19 +484,25 @@ private:
 					if (ii == keysize) return states[ee].next;
 				}
 			}
+			int linkidx = -1;
 			if (!states[ stateidx].isempty())
 			{
 				while (states[ stateidx].link >= 0)
 				{
 					stateidx = states[ stateidx].link;
 				}
-				states[ stateidx].link = states.size();
+				linkidx = stateidx;
 				stateidx = states.size();
 				states.push_back( state);
 			}
 			states.push_back( state);
 			unsigned int lastidx = states.size()-1;
 			states[ stateidx].defineNext( op, keysize, key, srckey, lastidx, follow);
+			if (linkidx >= 0)
+			{
+				//... link the state when it is complete, nothing that can fail must follow
+				states[ linkidx].link = stateidx;
+			}
 			return stateidx=lastidx;
 		}
 		catch (const std::bad_alloc&)
@@ -535,10 +541,9 @@ private:
 				{
 					stateidx = states[stateidx].link;
 				}
-				states[ stateidx].link = states.size();
-				stateidx = states.size();
 				states.push_back( state);
-				
+				states[ stateidx].link = states.size()-1;
+				stateidx = states.size()-1;
 			}
 			states[ stateidx].defineOutput( printOpMask, typeidx, follow, start, end);
 			return stateidx;
-- 
2.43.0


From b7b6b6d230169fae8bc9553d24f1e898c8570f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 34/42] fix: character skipped with a postincrement that
 continued after the end of a chunk

---
 include/textwolf/charset_utf8.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/textwolf/charset_utf8.hpp b/include/textwolf/charset_utf8.hpp
index 160d5c7..512d67c 100644
--- a/include/textwolf/charset_utf8.hpp
+++ b/include/textwolf/charset_utf8.hpp
@@ -101,6 +101,7 @@ struct UTF8
 		unsigned int bufsize = size( buf, bufpos, itr);
 		for (;bufpos < bufsize && isFollowByte( *itr); ++bufpos)
 		{
+			buf[ bufpos] = *itr;
 			++itr;
 		}
 	}
-- 
2.43.0


From f80664aafc20dc5b7807943d09bcff0a1bd975ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 35/42] fix: dangling content of the iterator element if the
 next element cannot be fetched

---
 include/textwolf/xmlscanner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 9a41426..8458954 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1224,6 +1224,10 @@ public:
 			/// \brief Fetch the next element from the scanner
 			void fetch( ThisXMLScanner& input, unsigned short mask)
 			{
+				// ... the buffer with the old content is overwritten, also if the scanner does not get to the next element
+				m_type = None;
+				m_content = 0;
+				m_size = 0;
 				m_type = input.nextItem( mask);
 				if (m_type == ErrorOccurred)
 				{
-- 
2.43.0


From 2e5bc5b8ac61ef3bc4f5cd7186a9c534d1846559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 36/42] fix: namespace check in path expressions compared bytes
 instead of characters

---
 include/textwolf/xmlpathautomatonparse.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomatonparse.hpp b/include/textwolf/xmlpathautomatonparse.hpp
index 87324b6..9f312c6 100644
--- a/include/textwolf/xmlpathautomatonparse.hpp
+++ b/include/textwolf/xmlpathautomatonparse.hpp
@@ -45,15 +45,25 @@ public:
 	int addExpression( int typeidx, const char* esrc, std::size_t esrcsize)
 	{
 		// Check for namespaces, not supported:
-		char const* xx = (char const*)std::memchr( esrc, ':', esrcsize);
-		while (xx)
+		CStringIterator nsitr( esrc, esrcsize);
+		SrcScanner nssrc( m_srccharset, nsitr);
+		std::size_t nspos = 0;
+		bool nscolon = false;
+		for (; *nssrc; ++nssrc)
 		{
-			std::size_t xpos = xx - esrc;
-			if (xpos + 1 < esrcsize && xx[1] == ':')
+			if (*nssrc != ':')
 			{
-				return xpos+1;
+				nscolon = false;
+			}
+			else if (nscolon)
+			{
+				return nspos+1;
+			}
+			else
+			{
+				nscolon = true;
+				nspos = nssrc.getPosition();
 			}
-			xx = (char const*)std::memchr( xx+1, ':', esrcsize - (xpos+1));
 		}
 
 		// Parse the expression:
-- 
2.43.0


From ff253b5807d03b741f1a7951362a4994a68c3657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 37/42] fix: selection of any value joined with the selection
 of an empty value

---
 include/textwolf/xmlpathautomaton.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 7e2c1c5..593584b 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -477,7 +477,7 @@ private:
 
 			for (int ee=stateidx; ee != -1; stateidx=ee,ee=states[ee].link)
 			{
-				if ((states[ee].key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
+				if ((states[ee].key != 0) && (key != 0) && (keysize == states[ee].keysize) && (states[ee].core.follow == follow) && (mask == states[ee].core.mask))
 				{
 					unsigned int ii;
 					for (ii=0; ii<keysize && states[ee].key[ii]==key[ii]; ii++);
-- 
2.43.0


From 45b54cd90a24c7343d920c3679b838b344fb86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 38/42] fix: expanding a buffer beyond its capacity was not
 reported as overflow

---
 include/textwolf/staticbuffer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/textwolf/staticbuffer.hpp b/include/textwolf/staticbuffer.hpp
index 87964c2..d650d20 100644
--- a/include/textwolf/staticbuffer.hpp
+++ b/include/textwolf/staticbuffer.hpp
@@ -128,7 +128,11 @@ public:
 		}
 		else
 		{
-			if (m_size<n) n=m_size;
+			if (m_size<n)
+			{
+				n = m_size;
+				m_overflow = true;
+			}
 			while (n>m_pos) push_back(c);
 		}
 	}
-- 
2.43.0


From 230091e334431c9ea7633448347f3b1182e18816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 39/42] fix: program terminated if memory ran out while an
 exception was created

---
 include/textwolf/exception.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/textwolf/exception.hpp b/include/textwolf/exception.hpp
index 4ee5f25..ae4a26c 100644
--- a/include/textwolf/exception.hpp
+++ b/include/textwolf/exception.hpp
@@ -52,11 +52,12 @@ struct exception	:public std::runtime_error
 
 	/// \brief Constructor
 	/// \return exception object
-	exception (Cause p_cause) throw()
+	/// \remark May throw std::bad_alloc, because std::runtime_error allocates its message
+	exception (Cause p_cause)
 		:std::runtime_error("textwolf error in XML"), cause(p_cause) {}
 	/// \brief Copy constructor
 	exception (const exception& orig) throw()
-		:std::runtime_error("textwolf error in XML"), cause(orig.cause) {}
+		:std::runtime_error(orig), cause(orig.cause) {}
 	/// \brief Destructor
 	virtual ~exception() throw() {}
 
-- 
2.43.0


From 7a5908fd3c02388fc3e00057f580cb461782fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:23 +0000
Subject: [PATCH 40/42] fix: parse state of an interrupted entity survives when
 the item is resumed masked out, expectStr reads behind its string

---
 include/textwolf/xmlscanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/textwolf/xmlscanner.hpp b/include/textwolf/xmlscanner.hpp
index 8458954..adf1ad5 100644
--- a/include/textwolf/xmlscanner.hpp
+++ b/include/textwolf/xmlscanner.hpp
@@ -1130,6 +1130,8 @@ public:
 						}
 						else
 						{
+							//... the token may have been interrupted with another mask
+							tokstate.init();
 							if (!skipToken( *tokenDefs[ sd->action.op])) return ErrorOccurred;
 						}
 					}
-- 
2.43.0


From 531f768dc8b48fb463ccd311222fa34eb992be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 41/42] fix: index ranges set in several steps are the
 intersection, an open end keeps the start of the range

---
 include/textwolf/xmlpathautomaton.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/textwolf/xmlpathautomaton.hpp b/include/textwolf/xmlpathautomaton.hpp
index 593584b..2a54b78 100644
--- a/include/textwolf/xmlpathautomaton.hpp
+++ b/include/textwolf/xmlpathautomaton.hpp
@@ -651,17 +651,15 @@ public:
 		///\return *this
 		PathElement& doRange( int p_start, int p_end)
 		{
+			if (p_end == -1) p_end = std::numeric_limits<int>::max();
 			if (range.end == -1)
 			{
 				range = Range( p_start, p_end);
 			}
-			else if (p_end < range.end)
-			{
-				range.end = p_end;
-			}
-			else if (p_start > range.start)
+			else
 			{
-				range.start = p_start;
+				if (p_end < range.end) range.end = p_end;
+				if (p_start > range.start) range.start = p_start;
 			}
 			return *this;
 		}
-- 
2.43.0


From a890198e919bd142c8986e3e79684abd8653496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:28 +0000
Subject: [PATCH 42/42] fix: distance of two IStreamIterators must not depend
 on the buffers they are in

---
 include/textwolf/istreamiterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/textwolf/istreamiterator.hpp b/include/textwolf/istreamiterator.hpp
index 48a7af7..7401f6d 100644
--- a/include/textwolf/istreamiterator.hpp
+++ b/include/textwolf/istreamiterator.hpp
@@ -171,7 +171,7 @@ public:
 
 	int operator - (const IStreamIterator& o) const
 	{
-		return (int)m_readpos - o.m_readpos;
+		return (int)(position() - o.position());
 	}
 
 	PositionIndex position() const
-- 
2.43.0

