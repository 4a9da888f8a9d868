//! An enum whose variant numbers take more than a byte. Generated.
use crate::infra::*;
use crate::model::*;
use crate::types::*;
use bm_le::{FromTree, IntoTree};

#[derive(IntoTree, FromTree, Debug, PartialEq, Clone)]
pub enum EB {
	V0,
	V1,
	V2,
	V3,
	V4,
	V5,
	V6,
	V7,
	V8,
	V9,
	V10,
	V11,
	V12,
	V13,
	V14,
	V15,
	V16,
	V17,
	V18,
	V19,
	V20,
	V21,
	V22,
	V23,
	V24,
	V25,
	V26,
	V27,
	V28,
	V29,
	V30,
	V31,
	V32,
	V33,
	V34,
	V35,
	V36,
	V37,
	V38,
	V39,
	V40,
	V41,
	V42,
	V43,
	V44,
	V45,
	V46,
	V47,
	V48,
	V49,
	V50,
	V51,
	V52,
	V53,
	V54,
	V55,
	V56,
	V57,
	V58,
	V59,
	V60,
	V61,
	V62,
	V63,
	V64,
	V65,
	V66,
	V67,
	V68,
	V69,
	V70,
	V71,
	V72,
	V73,
	V74,
	V75,
	V76,
	V77,
	V78,
	V79,
	V80,
	V81,
	V82,
	V83,
	V84,
	V85,
	V86,
	V87,
	V88,
	V89,
	V90,
	V91,
	V92,
	V93,
	V94,
	V95,
	V96,
	V97,
	V98,
	V99,
	V100,
	V101,
	V102,
	V103,
	V104,
	V105,
	V106,
	V107,
	V108,
	V109,
	V110,
	V111,
	V112,
	V113,
	V114,
	V115,
	V116,
	V117,
	V118,
	V119,
	V120,
	V121,
	V122,
	V123,
	V124,
	V125,
	V126,
	V127,
	V128,
	V129,
	V130,
	V131,
	V132,
	V133,
	V134,
	V135,
	V136,
	V137,
	V138,
	V139,
	V140,
	V141,
	V142,
	V143,
	V144,
	V145,
	V146,
	V147,
	V148,
	V149,
	V150,
	V151,
	V152,
	V153,
	V154,
	V155,
	V156,
	V157,
	V158,
	V159,
	V160,
	V161,
	V162,
	V163,
	V164,
	V165,
	V166,
	V167,
	V168,
	V169,
	V170,
	V171,
	V172,
	V173,
	V174,
	V175,
	V176,
	V177,
	V178,
	V179,
	V180,
	V181,
	V182,
	V183,
	V184,
	V185,
	V186,
	V187,
	V188,
	V189,
	V190,
	V191,
	V192,
	V193,
	V194,
	V195,
	V196,
	V197,
	V198,
	V199,
	V200,
	V201,
	V202,
	V203,
	V204,
	V205,
	V206,
	V207,
	V208,
	V209,
	V210,
	V211,
	V212,
	V213,
	V214,
	V215,
	V216,
	V217,
	V218,
	V219,
	V220,
	V221,
	V222,
	V223,
	V224,
	V225,
	V226,
	V227,
	V228,
	V229,
	V230,
	V231,
	V232,
	V233,
	V234,
	V235,
	V236,
	V237,
	V238,
	V239,
	V240,
	V241,
	V242,
	V243,
	V244,
	V245,
	V246,
	V247,
	V248,
	V249,
	V250,
	V251,
	V252,
	V253,
	V254,
	V255(u64),
	V256((u8, Vec<u16>)),
	V257(S2),
	V258([u16; 3]),
	V259,
	V260,
	V261,
	V262,
	V263,
	V264,
	V265,
	V266,
	V267,
	V268,
	V269,
	V270,
	V271,
	V272,
	V273,
	V274,
	V275,
	V276,
	V277,
	V278,
	V279,
	V280(Option<u32>),
	V281,
	V282,
	V283,
	V284,
	V285,
	V286,
	V287,
	V288,
	V289,
	V290 { a: u8, b: u64 },
	V291,
	V292,
	V293,
	V294,
	V295,
	V296,
	V297,
	V298,
	V299(u8),
}
impl Ssz for EB {
	fn gen(r: &mut Rng, d: usize) -> Self {
		let k = match r.below(3) { 0 => r.range(250, 262), 1 => r.below(300), _ => *r.pick(&[255, 256, 257, 258, 280, 290, 299]) };
		match k {
			0 => EB::V0,
			1 => EB::V1,
			2 => EB::V2,
			3 => EB::V3,
			4 => EB::V4,
			5 => EB::V5,
			6 => EB::V6,
			7 => EB::V7,
			8 => EB::V8,
			9 => EB::V9,
			10 => EB::V10,
			11 => EB::V11,
			12 => EB::V12,
			13 => EB::V13,
			14 => EB::V14,
			15 => EB::V15,
			16 => EB::V16,
			17 => EB::V17,
			18 => EB::V18,
			19 => EB::V19,
			20 => EB::V20,
			21 => EB::V21,
			22 => EB::V22,
			23 => EB::V23,
			24 => EB::V24,
			25 => EB::V25,
			26 => EB::V26,
			27 => EB::V27,
			28 => EB::V28,
			29 => EB::V29,
			30 => EB::V30,
			31 => EB::V31,
			32 => EB::V32,
			33 => EB::V33,
			34 => EB::V34,
			35 => EB::V35,
			36 => EB::V36,
			37 => EB::V37,
			38 => EB::V38,
			39 => EB::V39,
			40 => EB::V40,
			41 => EB::V41,
			42 => EB::V42,
			43 => EB::V43,
			44 => EB::V44,
			45 => EB::V45,
			46 => EB::V46,
			47 => EB::V47,
			48 => EB::V48,
			49 => EB::V49,
			50 => EB::V50,
			51 => EB::V51,
			52 => EB::V52,
			53 => EB::V53,
			54 => EB::V54,
			55 => EB::V55,
			56 => EB::V56,
			57 => EB::V57,
			58 => EB::V58,
			59 => EB::V59,
			60 => EB::V60,
			61 => EB::V61,
			62 => EB::V62,
			63 => EB::V63,
			64 => EB::V64,
			65 => EB::V65,
			66 => EB::V66,
			67 => EB::V67,
			68 => EB::V68,
			69 => EB::V69,
			70 => EB::V70,
			71 => EB::V71,
			72 => EB::V72,
			73 => EB::V73,
			74 => EB::V74,
			75 => EB::V75,
			76 => EB::V76,
			77 => EB::V77,
			78 => EB::V78,
			79 => EB::V79,
			80 => EB::V80,
			81 => EB::V81,
			82 => EB::V82,
			83 => EB::V83,
			84 => EB::V84,
			85 => EB::V85,
			86 => EB::V86,
			87 => EB::V87,
			88 => EB::V88,
			89 => EB::V89,
			90 => EB::V90,
			91 => EB::V91,
			92 => EB::V92,
			93 => EB::V93,
			94 => EB::V94,
			95 => EB::V95,
			96 => EB::V96,
			97 => EB::V97,
			98 => EB::V98,
			99 => EB::V99,
			100 => EB::V100,
			101 => EB::V101,
			102 => EB::V102,
			103 => EB::V103,
			104 => EB::V104,
			105 => EB::V105,
			106 => EB::V106,
			107 => EB::V107,
			108 => EB::V108,
			109 => EB::V109,
			110 => EB::V110,
			111 => EB::V111,
			112 => EB::V112,
			113 => EB::V113,
			114 => EB::V114,
			115 => EB::V115,
			116 => EB::V116,
			117 => EB::V117,
			118 => EB::V118,
			119 => EB::V119,
			120 => EB::V120,
			121 => EB::V121,
			122 => EB::V122,
			123 => EB::V123,
			124 => EB::V124,
			125 => EB::V125,
			126 => EB::V126,
			127 => EB::V127,
			128 => EB::V128,
			129 => EB::V129,
			130 => EB::V130,
			131 => EB::V131,
			132 => EB::V132,
			133 => EB::V133,
			134 => EB::V134,
			135 => EB::V135,
			136 => EB::V136,
			137 => EB::V137,
			138 => EB::V138,
			139 => EB::V139,
			140 => EB::V140,
			141 => EB::V141,
			142 => EB::V142,
			143 => EB::V143,
			144 => EB::V144,
			145 => EB::V145,
			146 => EB::V146,
			147 => EB::V147,
			148 => EB::V148,
			149 => EB::V149,
			150 => EB::V150,
			151 => EB::V151,
			152 => EB::V152,
			153 => EB::V153,
			154 => EB::V154,
			155 => EB::V155,
			156 => EB::V156,
			157 => EB::V157,
			158 => EB::V158,
			159 => EB::V159,
			160 => EB::V160,
			161 => EB::V161,
			162 => EB::V162,
			163 => EB::V163,
			164 => EB::V164,
			165 => EB::V165,
			166 => EB::V166,
			167 => EB::V167,
			168 => EB::V168,
			169 => EB::V169,
			170 => EB::V170,
			171 => EB::V171,
			172 => EB::V172,
			173 => EB::V173,
			174 => EB::V174,
			175 => EB::V175,
			176 => EB::V176,
			177 => EB::V177,
			178 => EB::V178,
			179 => EB::V179,
			180 => EB::V180,
			181 => EB::V181,
			182 => EB::V182,
			183 => EB::V183,
			184 => EB::V184,
			185 => EB::V185,
			186 => EB::V186,
			187 => EB::V187,
			188 => EB::V188,
			189 => EB::V189,
			190 => EB::V190,
			191 => EB::V191,
			192 => EB::V192,
			193 => EB::V193,
			194 => EB::V194,
			195 => EB::V195,
			196 => EB::V196,
			197 => EB::V197,
			198 => EB::V198,
			199 => EB::V199,
			200 => EB::V200,
			201 => EB::V201,
			202 => EB::V202,
			203 => EB::V203,
			204 => EB::V204,
			205 => EB::V205,
			206 => EB::V206,
			207 => EB::V207,
			208 => EB::V208,
			209 => EB::V209,
			210 => EB::V210,
			211 => EB::V211,
			212 => EB::V212,
			213 => EB::V213,
			214 => EB::V214,
			215 => EB::V215,
			216 => EB::V216,
			217 => EB::V217,
			218 => EB::V218,
			219 => EB::V219,
			220 => EB::V220,
			221 => EB::V221,
			222 => EB::V222,
			223 => EB::V223,
			224 => EB::V224,
			225 => EB::V225,
			226 => EB::V226,
			227 => EB::V227,
			228 => EB::V228,
			229 => EB::V229,
			230 => EB::V230,
			231 => EB::V231,
			232 => EB::V232,
			233 => EB::V233,
			234 => EB::V234,
			235 => EB::V235,
			236 => EB::V236,
			237 => EB::V237,
			238 => EB::V238,
			239 => EB::V239,
			240 => EB::V240,
			241 => EB::V241,
			242 => EB::V242,
			243 => EB::V243,
			244 => EB::V244,
			245 => EB::V245,
			246 => EB::V246,
			247 => EB::V247,
			248 => EB::V248,
			249 => EB::V249,
			250 => EB::V250,
			251 => EB::V251,
			252 => EB::V252,
			253 => EB::V253,
			254 => EB::V254,
			255 => EB::V255(Ssz::gen(r, d + 1)),
			256 => EB::V256(Ssz::gen(r, d + 1)),
			257 => EB::V257(Ssz::gen(r, d + 1)),
			258 => EB::V258(Ssz::gen(r, d + 1)),
			259 => EB::V259,
			260 => EB::V260,
			261 => EB::V261,
			262 => EB::V262,
			263 => EB::V263,
			264 => EB::V264,
			265 => EB::V265,
			266 => EB::V266,
			267 => EB::V267,
			268 => EB::V268,
			269 => EB::V269,
			270 => EB::V270,
			271 => EB::V271,
			272 => EB::V272,
			273 => EB::V273,
			274 => EB::V274,
			275 => EB::V275,
			276 => EB::V276,
			277 => EB::V277,
			278 => EB::V278,
			279 => EB::V279,
			280 => EB::V280(Ssz::gen(r, d + 1)),
			281 => EB::V281,
			282 => EB::V282,
			283 => EB::V283,
			284 => EB::V284,
			285 => EB::V285,
			286 => EB::V286,
			287 => EB::V287,
			288 => EB::V288,
			289 => EB::V289,
			290 => EB::V290 { a: Ssz::gen(r, d + 1), b: Ssz::gen(r, d + 1) },
			291 => EB::V291,
			292 => EB::V292,
			293 => EB::V293,
			294 => EB::V294,
			295 => EB::V295,
			296 => EB::V296,
			297 => EB::V297,
			298 => EB::V298,
			299 => EB::V299(Ssz::gen(r, d + 1)),
			_ => unreachable!(),
		}
	}
	fn sroot(&self, s: Sp) -> V {
		match self {
			EB::V0 => s.mix(zero(), 0),
			EB::V1 => s.mix(zero(), 1),
			EB::V2 => s.mix(zero(), 2),
			EB::V3 => s.mix(zero(), 3),
			EB::V4 => s.mix(zero(), 4),
			EB::V5 => s.mix(zero(), 5),
			EB::V6 => s.mix(zero(), 6),
			EB::V7 => s.mix(zero(), 7),
			EB::V8 => s.mix(zero(), 8),
			EB::V9 => s.mix(zero(), 9),
			EB::V10 => s.mix(zero(), 10),
			EB::V11 => s.mix(zero(), 11),
			EB::V12 => s.mix(zero(), 12),
			EB::V13 => s.mix(zero(), 13),
			EB::V14 => s.mix(zero(), 14),
			EB::V15 => s.mix(zero(), 15),
			EB::V16 => s.mix(zero(), 16),
			EB::V17 => s.mix(zero(), 17),
			EB::V18 => s.mix(zero(), 18),
			EB::V19 => s.mix(zero(), 19),
			EB::V20 => s.mix(zero(), 20),
			EB::V21 => s.mix(zero(), 21),
			EB::V22 => s.mix(zero(), 22),
			EB::V23 => s.mix(zero(), 23),
			EB::V24 => s.mix(zero(), 24),
			EB::V25 => s.mix(zero(), 25),
			EB::V26 => s.mix(zero(), 26),
			EB::V27 => s.mix(zero(), 27),
			EB::V28 => s.mix(zero(), 28),
			EB::V29 => s.mix(zero(), 29),
			EB::V30 => s.mix(zero(), 30),
			EB::V31 => s.mix(zero(), 31),
			EB::V32 => s.mix(zero(), 32),
			EB::V33 => s.mix(zero(), 33),
			EB::V34 => s.mix(zero(), 34),
			EB::V35 => s.mix(zero(), 35),
			EB::V36 => s.mix(zero(), 36),
			EB::V37 => s.mix(zero(), 37),
			EB::V38 => s.mix(zero(), 38),
			EB::V39 => s.mix(zero(), 39),
			EB::V40 => s.mix(zero(), 40),
			EB::V41 => s.mix(zero(), 41),
			EB::V42 => s.mix(zero(), 42),
			EB::V43 => s.mix(zero(), 43),
			EB::V44 => s.mix(zero(), 44),
			EB::V45 => s.mix(zero(), 45),
			EB::V46 => s.mix(zero(), 46),
			EB::V47 => s.mix(zero(), 47),
			EB::V48 => s.mix(zero(), 48),
			EB::V49 => s.mix(zero(), 49),
			EB::V50 => s.mix(zero(), 50),
			EB::V51 => s.mix(zero(), 51),
			EB::V52 => s.mix(zero(), 52),
			EB::V53 => s.mix(zero(), 53),
			EB::V54 => s.mix(zero(), 54),
			EB::V55 => s.mix(zero(), 55),
			EB::V56 => s.mix(zero(), 56),
			EB::V57 => s.mix(zero(), 57),
			EB::V58 => s.mix(zero(), 58),
			EB::V59 => s.mix(zero(), 59),
			EB::V60 => s.mix(zero(), 60),
			EB::V61 => s.mix(zero(), 61),
			EB::V62 => s.mix(zero(), 62),
			EB::V63 => s.mix(zero(), 63),
			EB::V64 => s.mix(zero(), 64),
			EB::V65 => s.mix(zero(), 65),
			EB::V66 => s.mix(zero(), 66),
			EB::V67 => s.mix(zero(), 67),
			EB::V68 => s.mix(zero(), 68),
			EB::V69 => s.mix(zero(), 69),
			EB::V70 => s.mix(zero(), 70),
			EB::V71 => s.mix(zero(), 71),
			EB::V72 => s.mix(zero(), 72),
			EB::V73 => s.mix(zero(), 73),
			EB::V74 => s.mix(zero(), 74),
			EB::V75 => s.mix(zero(), 75),
			EB::V76 => s.mix(zero(), 76),
			EB::V77 => s.mix(zero(), 77),
			EB::V78 => s.mix(zero(), 78),
			EB::V79 => s.mix(zero(), 79),
			EB::V80 => s.mix(zero(), 80),
			EB::V81 => s.mix(zero(), 81),
			EB::V82 => s.mix(zero(), 82),
			EB::V83 => s.mix(zero(), 83),
			EB::V84 => s.mix(zero(), 84),
			EB::V85 => s.mix(zero(), 85),
			EB::V86 => s.mix(zero(), 86),
			EB::V87 => s.mix(zero(), 87),
			EB::V88 => s.mix(zero(), 88),
			EB::V89 => s.mix(zero(), 89),
			EB::V90 => s.mix(zero(), 90),
			EB::V91 => s.mix(zero(), 91),
			EB::V92 => s.mix(zero(), 92),
			EB::V93 => s.mix(zero(), 93),
			EB::V94 => s.mix(zero(), 94),
			EB::V95 => s.mix(zero(), 95),
			EB::V96 => s.mix(zero(), 96),
			EB::V97 => s.mix(zero(), 97),
			EB::V98 => s.mix(zero(), 98),
			EB::V99 => s.mix(zero(), 99),
			EB::V100 => s.mix(zero(), 100),
			EB::V101 => s.mix(zero(), 101),
			EB::V102 => s.mix(zero(), 102),
			EB::V103 => s.mix(zero(), 103),
			EB::V104 => s.mix(zero(), 104),
			EB::V105 => s.mix(zero(), 105),
			EB::V106 => s.mix(zero(), 106),
			EB::V107 => s.mix(zero(), 107),
			EB::V108 => s.mix(zero(), 108),
			EB::V109 => s.mix(zero(), 109),
			EB::V110 => s.mix(zero(), 110),
			EB::V111 => s.mix(zero(), 111),
			EB::V112 => s.mix(zero(), 112),
			EB::V113 => s.mix(zero(), 113),
			EB::V114 => s.mix(zero(), 114),
			EB::V115 => s.mix(zero(), 115),
			EB::V116 => s.mix(zero(), 116),
			EB::V117 => s.mix(zero(), 117),
			EB::V118 => s.mix(zero(), 118),
			EB::V119 => s.mix(zero(), 119),
			EB::V120 => s.mix(zero(), 120),
			EB::V121 => s.mix(zero(), 121),
			EB::V122 => s.mix(zero(), 122),
			EB::V123 => s.mix(zero(), 123),
			EB::V124 => s.mix(zero(), 124),
			EB::V125 => s.mix(zero(), 125),
			EB::V126 => s.mix(zero(), 126),
			EB::V127 => s.mix(zero(), 127),
			EB::V128 => s.mix(zero(), 128),
			EB::V129 => s.mix(zero(), 129),
			EB::V130 => s.mix(zero(), 130),
			EB::V131 => s.mix(zero(), 131),
			EB::V132 => s.mix(zero(), 132),
			EB::V133 => s.mix(zero(), 133),
			EB::V134 => s.mix(zero(), 134),
			EB::V135 => s.mix(zero(), 135),
			EB::V136 => s.mix(zero(), 136),
			EB::V137 => s.mix(zero(), 137),
			EB::V138 => s.mix(zero(), 138),
			EB::V139 => s.mix(zero(), 139),
			EB::V140 => s.mix(zero(), 140),
			EB::V141 => s.mix(zero(), 141),
			EB::V142 => s.mix(zero(), 142),
			EB::V143 => s.mix(zero(), 143),
			EB::V144 => s.mix(zero(), 144),
			EB::V145 => s.mix(zero(), 145),
			EB::V146 => s.mix(zero(), 146),
			EB::V147 => s.mix(zero(), 147),
			EB::V148 => s.mix(zero(), 148),
			EB::V149 => s.mix(zero(), 149),
			EB::V150 => s.mix(zero(), 150),
			EB::V151 => s.mix(zero(), 151),
			EB::V152 => s.mix(zero(), 152),
			EB::V153 => s.mix(zero(), 153),
			EB::V154 => s.mix(zero(), 154),
			EB::V155 => s.mix(zero(), 155),
			EB::V156 => s.mix(zero(), 156),
			EB::V157 => s.mix(zero(), 157),
			EB::V158 => s.mix(zero(), 158),
			EB::V159 => s.mix(zero(), 159),
			EB::V160 => s.mix(zero(), 160),
			EB::V161 => s.mix(zero(), 161),
			EB::V162 => s.mix(zero(), 162),
			EB::V163 => s.mix(zero(), 163),
			EB::V164 => s.mix(zero(), 164),
			EB::V165 => s.mix(zero(), 165),
			EB::V166 => s.mix(zero(), 166),
			EB::V167 => s.mix(zero(), 167),
			EB::V168 => s.mix(zero(), 168),
			EB::V169 => s.mix(zero(), 169),
			EB::V170 => s.mix(zero(), 170),
			EB::V171 => s.mix(zero(), 171),
			EB::V172 => s.mix(zero(), 172),
			EB::V173 => s.mix(zero(), 173),
			EB::V174 => s.mix(zero(), 174),
			EB::V175 => s.mix(zero(), 175),
			EB::V176 => s.mix(zero(), 176),
			EB::V177 => s.mix(zero(), 177),
			EB::V178 => s.mix(zero(), 178),
			EB::V179 => s.mix(zero(), 179),
			EB::V180 => s.mix(zero(), 180),
			EB::V181 => s.mix(zero(), 181),
			EB::V182 => s.mix(zero(), 182),
			EB::V183 => s.mix(zero(), 183),
			EB::V184 => s.mix(zero(), 184),
			EB::V185 => s.mix(zero(), 185),
			EB::V186 => s.mix(zero(), 186),
			EB::V187 => s.mix(zero(), 187),
			EB::V188 => s.mix(zero(), 188),
			EB::V189 => s.mix(zero(), 189),
			EB::V190 => s.mix(zero(), 190),
			EB::V191 => s.mix(zero(), 191),
			EB::V192 => s.mix(zero(), 192),
			EB::V193 => s.mix(zero(), 193),
			EB::V194 => s.mix(zero(), 194),
			EB::V195 => s.mix(zero(), 195),
			EB::V196 => s.mix(zero(), 196),
			EB::V197 => s.mix(zero(), 197),
			EB::V198 => s.mix(zero(), 198),
			EB::V199 => s.mix(zero(), 199),
			EB::V200 => s.mix(zero(), 200),
			EB::V201 => s.mix(zero(), 201),
			EB::V202 => s.mix(zero(), 202),
			EB::V203 => s.mix(zero(), 203),
			EB::V204 => s.mix(zero(), 204),
			EB::V205 => s.mix(zero(), 205),
			EB::V206 => s.mix(zero(), 206),
			EB::V207 => s.mix(zero(), 207),
			EB::V208 => s.mix(zero(), 208),
			EB::V209 => s.mix(zero(), 209),
			EB::V210 => s.mix(zero(), 210),
			EB::V211 => s.mix(zero(), 211),
			EB::V212 => s.mix(zero(), 212),
			EB::V213 => s.mix(zero(), 213),
			EB::V214 => s.mix(zero(), 214),
			EB::V215 => s.mix(zero(), 215),
			EB::V216 => s.mix(zero(), 216),
			EB::V217 => s.mix(zero(), 217),
			EB::V218 => s.mix(zero(), 218),
			EB::V219 => s.mix(zero(), 219),
			EB::V220 => s.mix(zero(), 220),
			EB::V221 => s.mix(zero(), 221),
			EB::V222 => s.mix(zero(), 222),
			EB::V223 => s.mix(zero(), 223),
			EB::V224 => s.mix(zero(), 224),
			EB::V225 => s.mix(zero(), 225),
			EB::V226 => s.mix(zero(), 226),
			EB::V227 => s.mix(zero(), 227),
			EB::V228 => s.mix(zero(), 228),
			EB::V229 => s.mix(zero(), 229),
			EB::V230 => s.mix(zero(), 230),
			EB::V231 => s.mix(zero(), 231),
			EB::V232 => s.mix(zero(), 232),
			EB::V233 => s.mix(zero(), 233),
			EB::V234 => s.mix(zero(), 234),
			EB::V235 => s.mix(zero(), 235),
			EB::V236 => s.mix(zero(), 236),
			EB::V237 => s.mix(zero(), 237),
			EB::V238 => s.mix(zero(), 238),
			EB::V239 => s.mix(zero(), 239),
			EB::V240 => s.mix(zero(), 240),
			EB::V241 => s.mix(zero(), 241),
			EB::V242 => s.mix(zero(), 242),
			EB::V243 => s.mix(zero(), 243),
			EB::V244 => s.mix(zero(), 244),
			EB::V245 => s.mix(zero(), 245),
			EB::V246 => s.mix(zero(), 246),
			EB::V247 => s.mix(zero(), 247),
			EB::V248 => s.mix(zero(), 248),
			EB::V249 => s.mix(zero(), 249),
			EB::V250 => s.mix(zero(), 250),
			EB::V251 => s.mix(zero(), 251),
			EB::V252 => s.mix(zero(), 252),
			EB::V253 => s.mix(zero(), 253),
			EB::V254 => s.mix(zero(), 254),
			EB::V255(x) => s.mix(x.sroot(s), 255),
			EB::V256(x) => s.mix(x.sroot(s), 256),
			EB::V257(x) => s.mix(x.sroot(s), 257),
			EB::V258(x) => s.mix(x.sroot(s), 258),
			EB::V259 => s.mix(zero(), 259),
			EB::V260 => s.mix(zero(), 260),
			EB::V261 => s.mix(zero(), 261),
			EB::V262 => s.mix(zero(), 262),
			EB::V263 => s.mix(zero(), 263),
			EB::V264 => s.mix(zero(), 264),
			EB::V265 => s.mix(zero(), 265),
			EB::V266 => s.mix(zero(), 266),
			EB::V267 => s.mix(zero(), 267),
			EB::V268 => s.mix(zero(), 268),
			EB::V269 => s.mix(zero(), 269),
			EB::V270 => s.mix(zero(), 270),
			EB::V271 => s.mix(zero(), 271),
			EB::V272 => s.mix(zero(), 272),
			EB::V273 => s.mix(zero(), 273),
			EB::V274 => s.mix(zero(), 274),
			EB::V275 => s.mix(zero(), 275),
			EB::V276 => s.mix(zero(), 276),
			EB::V277 => s.mix(zero(), 277),
			EB::V278 => s.mix(zero(), 278),
			EB::V279 => s.mix(zero(), 279),
			EB::V280(x) => s.mix(x.sroot(s), 280),
			EB::V281 => s.mix(zero(), 281),
			EB::V282 => s.mix(zero(), 282),
			EB::V283 => s.mix(zero(), 283),
			EB::V284 => s.mix(zero(), 284),
			EB::V285 => s.mix(zero(), 285),
			EB::V286 => s.mix(zero(), 286),
			EB::V287 => s.mix(zero(), 287),
			EB::V288 => s.mix(zero(), 288),
			EB::V289 => s.mix(zero(), 289),
			EB::V290 { a, b } => s.mix(s.root(&[a.sroot(s), b.sroot(s)], None), 290),
			EB::V291 => s.mix(zero(), 291),
			EB::V292 => s.mix(zero(), 292),
			EB::V293 => s.mix(zero(), 293),
			EB::V294 => s.mix(zero(), 294),
			EB::V295 => s.mix(zero(), 295),
			EB::V296 => s.mix(zero(), 296),
			EB::V297 => s.mix(zero(), 297),
			EB::V298 => s.mix(zero(), 298),
			EB::V299(x) => s.mix(x.sroot(s), 299),
		}
	}
}
