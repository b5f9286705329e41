//! ISO 639 codes of the supported languages: 639-1, 639-2/T, 639-2/B.

pub const LANGS: [[&str; 3]; 146] = [
    ["ab", "abk", "abk"], ["af", "afr", "afr"], ["ak", "aka", "aka"], ["sq", "sqi", "alb"], ["am", "amh", "amh"], ["ar", "ara", "ara"],
    ["hy", "hye", "arm"], ["as", "asm", "asm"], ["ay", "aym", "aym"], ["az", "aze", "aze"], ["bm", "bam", "bam"], ["ba", "bak", "bak"],
    ["eu", "eus", "baq"], ["be", "bel", "bel"], ["bn", "ben", "ben"], ["bs", "bos", "bos"], ["bg", "bul", "bul"], ["my", "mya", "bur"],
    ["ca", "cat", "cat"], ["ny", "nya", "nya"], ["zh", "zho", "chi"], ["cv", "chv", "chv"], ["co", "cos", "cos"], ["hr", "hrv", "hrv"],
    ["cs", "ces", "cze"], ["da", "dan", "dan"], ["dv", "div", "div"], ["nl", "nld", "dut"], ["dz", "dzo", "dzo"], ["en", "eng", "eng"],
    ["et", "est", "est"], ["ee", "ewe", "ewe"], ["fj", "fij", "fij"], ["fi", "fin", "fin"], ["fr", "fra", "fre"], ["ff", "ful", "ful"],
    ["gl", "glg", "glg"], ["ka", "kat", "geo"], ["de", "deu", "ger"], ["el", "ell", "gre"], ["gn", "grn", "grn"], ["gu", "guj", "guj"],
    ["ht", "hat", "hat"], ["ha", "hau", "hau"], ["he", "heb", "heb"], ["hi", "hin", "hin"], ["hu", "hun", "hun"], ["id", "ind", "ind"],
    ["ga", "gle", "gle"], ["ig", "ibo", "ibo"], ["is", "isl", "ice"], ["it", "ita", "ita"], ["ja", "jpn", "jpn"], ["kl", "kal", "kal"],
    ["kn", "kan", "kan"], ["kr", "kau", "kau"], ["ks", "kas", "kas"], ["kk", "kaz", "kaz"], ["km", "khm", "khm"], ["ki", "kik", "kik"],
    ["rw", "kin", "kin"], ["ky", "kir", "kir"], ["kg", "kon", "kon"], ["ko", "kor", "kor"], ["ku", "kur", "kur"], ["lb", "ltz", "ltz"],
    ["lg", "lug", "lug"], ["li", "lim", "lim"], ["ln", "lin", "lin"], ["lo", "lao", "lao"], ["lt", "lit", "lit"], ["lv", "lav", "lav"],
    ["mk", "mkd", "mac"], ["mg", "mlg", "mlg"], ["ms", "msa", "may"], ["ml", "mal", "mal"], ["mt", "mlt", "mlt"], ["mr", "mar", "mar"],
    ["mh", "mah", "mah"], ["mn", "mon", "mon"], ["na", "nau", "nau"], ["nd", "nde", "nde"], ["ne", "nep", "nep"], ["no", "nor", "nor"],
    ["nr", "nbl", "nbl"], ["oc", "oci", "oci"], ["om", "orm", "orm"], ["or", "ori", "ori"], ["os", "oss", "oss"], ["pa", "pan", "pan"],
    ["fa", "fas", "per"], ["pl", "pol", "pol"], ["ps", "pus", "pus"], ["pt", "por", "por"], ["qu", "que", "que"], ["rn", "run", "run"],
    ["ro", "ron", "rum"], ["ru", "rus", "rus"], ["sa", "san", "san"], ["sc", "srd", "srd"], ["sd", "snd", "snd"], ["sm", "smo", "smo"],
    ["sg", "sag", "sag"], ["sr", "srp", "srp"], ["gd", "gla", "gla"], ["sn", "sna", "sna"], ["si", "sin", "sin"], ["sk", "slk", "slo"],
    ["sl", "slv", "slv"], ["so", "som", "som"], ["st", "sot", "sot"], ["es", "spa", "spa"], ["su", "sun", "sun"], ["sw", "swa", "swa"],
    ["ss", "ssw", "ssw"], ["sv", "swe", "swe"], ["ta", "tam", "tam"], ["te", "tel", "tel"], ["tg", "tgk", "tgk"], ["th", "tha", "tha"],
    ["ti", "tir", "tir"], ["bo", "bod", "tib"], ["tk", "tuk", "tuk"], ["tl", "tgl", "tgl"], ["tn", "tsn", "tsn"], ["to", "ton", "ton"],
    ["tr", "tur", "tur"], ["ts", "tso", "tso"], ["tt", "tat", "tat"], ["tw", "twi", "twi"], ["ty", "tah", "tah"], ["ug", "uig", "uig"],
    ["uk", "ukr", "ukr"], ["ur", "urd", "urd"], ["uz", "uzb", "uzb"], ["ve", "ven", "ven"], ["vi", "vie", "vie"], ["wa", "wln", "wln"],
    ["cy", "cym", "wel"], ["wo", "wol", "wol"], ["fy", "fry", "fry"], ["xh", "xho", "xho"], ["yi", "yid", "yid"], ["yo", "yor", "yor"],
    ["za", "zha", "zha"], ["zu", "zul", "zul"],
];
