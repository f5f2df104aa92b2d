package main

// Found by MC_PROBE=alike.
var alikeTable = []struct {
	domain, hash string
	i, j         int
}{
	{"data", "djb2x", 714, 3620},
	{"data", "adler32", 2, 25371},
	{"data", "fnv1a", 15763, 28975},
	{"data", "sha256 tail", 8137, 37773},
	{"data", "sha256 head", 34766, 51362},
	{"data", "checksum", 52828, 79796},
	{"data", "fnv1", 19751, 108716},
	{"data", "hash160", 126775, 129447},
	{"data", "fnv1a-64", 346, 146458},
	{"data", "fnv1-64", 119285, 175029},
	{"entropy", "djb2x", 1851, 2118},
	{"entropy", "adler32", 2, 25371},
	{"entropy", "checksum", 4605, 34769},
	{"entropy", "fnv1", 4435, 56296},
	{"entropy", "sha256 head", 65480, 66953},
	{"entropy", "fnv1a", 26308, 69951},
	{"entropy", "fnv1a-64", 21032, 72696},
	{"entropy", "fnv1-64", 100825, 101305},
	{"entropy", "hash160", 38605, 113924},
	{"entropy", "sha256 tail", 15745, 127237},
	{"hexseed", "adler32", 142, 693},
	{"hexseed", "fnv1a-64", 6709, 16418},
	{"hexseed", "fnv1-64", 3803, 17789},
	{"hexseed", "fnv1", 1160, 24614},
	{"hexseed", "djb2", 16621, 31556},
	{"hexseed", "crc32c", 8566, 50515},
	{"hexseed", "hash160", 4201, 50700},
	{"hexseed", "djb2x", 11648, 57820},
	{"hexseed", "sha256 tail", 62306, 86671},
	{"hexseed", "sha256 head", 70153, 103514},
	{"hexseed", "crc32", 33444, 109208},
	{"hexseed", "fnv1a", 53124, 124783},
	{"hexseed", "checksum", 157389, 239555},
	{"hexseed", "times31", 94613, 550359},
	{"key", "djb2", 0, 223},
	{"key", "times31", 0, 225},
	{"key", "djb2x", 320, 479},
	{"key", "checksum", 4867, 24402},
	{"key", "sha256 tail", 26576, 45463},
	{"key", "adler32", 0, 65025},
	{"key", "sha256 head", 4374, 69325},
	{"key", "hash160", 75408, 95874},
	{"keytext", "adler32", 377, 414},
	{"keytext", "fnv1-64", 13612, 22453},
	{"keytext", "crc32", 36337, 40558},
	{"keytext", "hash160", 33225, 47983},
	{"keytext", "checksum", 62211, 67120},
	{"keytext", "times31", 4852, 78362},
	{"keytext", "fnv1", 69889, 86661},
	{"keytext", "djb2x", 24403, 95973},
	{"keytext", "sha256 tail", 31648, 108431},
	{"keytext", "fnv1a", 62098, 110066},
	{"keytext", "sha256 head", 42053, 143746},
	{"keytext", "fnv1a-64", 19305, 149768},
	{"keytext", "djb2", 117373, 169089},
	{"keytext", "crc32c", 189552, 213868},
	{"pass", "adler32", 86, 167},
	{"pass", "sha256 tail", 3746, 9935},
	{"pass", "fnv1-64", 9814, 21046},
	{"pass", "djb2x", 24721, 40176},
	{"pass", "fnv1a", 7220, 43337},
	{"pass", "crc32", 38735, 69300},
	{"pass", "fnv1", 61052, 75096},
	{"pass", "checksum", 28465, 76857},
	{"pass", "sha256 head", 32441, 83853},
	{"pass", "fnv1a-64", 21223, 114272},
	{"pass", "crc32c", 84134, 188137},
	{"pass", "hash160", 143111, 199982},
	{"pass", "djb2", 716262, 798247},
	{"path", "adler32", 124, 205},
	{"path", "hash160", 482, 16827},
	{"path", "fnv1-64", 2842, 24879},
	{"path", "fnv1", 6255, 34149},
	{"path", "checksum", 9937, 36262},
	{"path", "fnv1a-64", 32644, 62804},
	{"path", "sha256 tail", 33526, 65177},
	{"path", "djb2x", 64177, 92440},
	{"path", "fnv1a", 42643, 94915},
	{"path", "sha256 head", 114199, 133250},
	{"path", "crc32", 147503, 200166},
	{"path", "crc32c", 174003, 308657},
	{"path", "times31", 151000, 327301},
	{"path", "djb2", 77003, 802844},
	{"pub", "adler32", 723, 3784},
	{"pub", "times31", 7294, 11727},
	{"pub", "fnv1", 1119, 32906},
	{"pub", "checksum", 59935, 61870},
	{"pub", "fnv1a", 21988, 73046},
	{"pub", "fnv1a-64", 37998, 78268},
	{"pub", "crc32", 77653, 84697},
	{"pub", "djb2", 73198, 93123},
	{"pub", "sha256 tail", 64862, 95568},
	{"pub", "djb2x", 48878, 111241},
	{"pub", "hash160", 25301, 115219},
	{"pub", "sha256 head", 113764, 125168},
	{"pub", "fnv1-64", 84273, 142118},
	{"pub", "crc32c", 72009, 147164},
	{"pubkey", "adler32", 723, 3784},
	{"pubkey", "times31", 7294, 11727},
	{"pubkey", "fnv1a", 28674, 32061},
	{"pubkey", "djb2x", 4405, 41702},
	{"pubkey", "checksum", 14903, 44336},
	{"pubkey", "sha256 tail", 29828, 48445},
	{"pubkey", "sha256 head", 48688, 57349},
	{"pubkey", "fnv1", 71394, 74593},
	{"pubkey", "fnv1a-64", 63314, 83787},
	{"pubkey", "crc32", 77653, 84697},
	{"pubkey", "djb2", 73198, 93123},
	{"pubkey", "fnv1-64", 68690, 94623},
	{"pubkey", "hash160", 56660, 97258},
	{"pubkey", "crc32c", 72009, 147164},
	{"pubtext", "adler32", 340, 1773},
	{"pubtext", "fnv1", 33411, 35772},
	{"pubtext", "hash160", 6955, 40887},
	{"pubtext", "djb2x", 31921, 41428},
	{"pubtext", "checksum", 35826, 60008},
	{"pubtext", "sha256 tail", 27904, 61885},
	{"pubtext", "fnv1-64", 17968, 75216},
	{"pubtext", "crc32c", 61073, 88261},
	{"pubtext", "fnv1a", 41066, 94688},
	{"pubtext", "times31", 50057, 97345},
	{"pubtext", "crc32", 55338, 110524},
	{"pubtext", "djb2", 32054, 115818},
	{"pubtext", "fnv1a-64", 72503, 135886},
	{"pubtext", "sha256 head", 129298, 191254},
	{"salt", "adler32", 86, 167},
	{"salt", "sha256 tail", 2585, 33700},
	{"salt", "djb2x", 24721, 40176},
	{"salt", "fnv1-64", 23740, 42981},
	{"salt", "fnv1", 5875, 67812},
	{"salt", "crc32", 38735, 69300},
	{"salt", "fnv1a", 46393, 78963},
	{"salt", "hash160", 19697, 79457},
	{"salt", "sha256 head", 28114, 95677},
	{"salt", "crc32c", 20062, 100959},
	{"salt", "fnv1a-64", 43811, 128699},
	{"salt", "checksum", 64042, 134054},
	{"salt", "times31", 700001, 794168},
	{"scalar", "djb2", 0, 223},
	{"scalar", "times31", 0, 225},
	{"scalar", "djb2x", 289, 735},
	{"scalar", "sha256 head", 196, 15033},
	{"scalar", "adler32", 0, 65025},
	{"scalar", "sha256 tail", 52626, 67300},
	{"scalar", "checksum", 73544, 96877},
	{"scalar", "hash160", 69280, 171266},
	{"seed", "djb2x", 376, 3151},
	{"seed", "adler32", 2, 25371},
	{"seed", "fnv1", 15763, 28975},
	{"seed", "sha256 tail", 6646, 37560},
	{"seed", "fnv1a-64", 38395, 38635},
	{"seed", "sha256 head", 41565, 48876},
	{"seed", "fnv1-64", 46873, 64649},
	{"seed", "checksum", 32603, 79158},
	{"seed", "fnv1a", 65330, 83036},
	{"seed", "hash160", 36685, 98675},
	{"sentence", "adler32", 15, 2332},
	{"sentence", "djb2", 36429, 43000},
	{"sentence", "fnv1a-64", 43059, 45795},
	{"sentence", "times31", 22211, 49916},
	{"sentence", "fnv1a", 54365, 57155},
	{"sentence", "fnv1-64", 8325, 58589},
	{"sentence", "checksum", 33692, 58789},
	{"sentence", "sha256 tail", 10588, 62111},
	{"sentence", "crc32", 32395, 83313},
	{"sentence", "crc32c", 79432, 109436},
	{"sentence", "djb2x", 17650, 111018},
	{"sentence", "fnv1", 47719, 117428},
	{"sentence", "hash160", 15397, 142273},
	{"sentence", "sha256 head", 126777, 150275},
	{"words+pass", "adler32", 86, 167},
	{"words+pass", "djb2x", 20659, 25905},
	{"words+pass", "checksum", 5204, 46147},
	{"words+pass", "hash160", 43085, 46618},
	{"words+pass", "sha256 head", 55242, 55776},
	{"words+pass", "fnv1-64", 29763, 59298},
	{"words+pass", "sha256 tail", 28644, 59527},
	{"words+pass", "fnv1", 50813, 60850},
	{"words+pass", "crc32", 38735, 69300},
	{"words+pass", "fnv1a-64", 79259, 85306},
	{"words+pass", "fnv1a", 58790, 95383},
	{"words+pass", "crc32c", 70798, 110531},
	{"words+pass", "djb2", 5530, 369391},
	{"words+salt", "adler32", 86, 167},
	{"words+salt", "crc32", 706, 12017},
	{"words+salt", "djb2x", 20659, 25905},
	{"words+salt", "sha256 tail", 16020, 44749},
	{"words+salt", "fnv1a-64", 2853, 61730},
	{"words+salt", "checksum", 64943, 80389},
	{"words+salt", "sha256 head", 75184, 83079},
	{"words+salt", "fnv1", 57686, 97579},
	{"words+salt", "crc32c", 55190, 101383},
	{"words+salt", "hash160", 62773, 106932},
	{"words+salt", "fnv1a", 12020, 126896},
	{"words+salt", "fnv1-64", 126273, 135091},
	{"words0pass", "adler32", 86, 167},
	{"words0pass", "djb2x", 20659, 25905},
	{"words0pass", "fnv1a-64", 23676, 46384},
	{"words0pass", "fnv1-64", 24193, 49624},
	{"words0pass", "sha256 head", 37091, 49761},
	{"words0pass", "crc32", 38735, 69300},
	{"words0pass", "sha256 tail", 58949, 70323},
	{"words0pass", "fnv1", 39063, 70810},
	{"words0pass", "checksum", 52583, 93248},
	{"words0pass", "fnv1a", 75076, 93260},
	{"words0pass", "crc32c", 84134, 188137},
	{"words0pass", "hash160", 143200, 197600},
	{"words0pass", "times31", 5462, 940938},
}
