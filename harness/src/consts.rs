// Every named table constant of the public API, by name (constant evaluation only).
use chanoma::corr::{Corr, Item};
use chanoma::characters_set::cjk_compatibilities as cjk;

use chanoma::characters_set::alphabets::Alphabets;
use chanoma::characters_set::digits::Digits;
use chanoma::characters_set::punctuations::Punctuations;
use chanoma::characters_set::kanas::Kanas;

pub fn alphabets__names() -> Vec<(&'static str, Vec<Item>)> {
    vec![
        ("CAPITAL_LETTER_A", Alphabets::CAPITAL_LETTER_A.items()),
        ("CAPITAL_LETTER_B", Alphabets::CAPITAL_LETTER_B.items()),
        ("CAPITAL_LETTER_C", Alphabets::CAPITAL_LETTER_C.items()),
        ("CAPITAL_LETTER_D", Alphabets::CAPITAL_LETTER_D.items()),
        ("CAPITAL_LETTER_E", Alphabets::CAPITAL_LETTER_E.items()),
        ("CAPITAL_LETTER_F", Alphabets::CAPITAL_LETTER_F.items()),
        ("CAPITAL_LETTER_G", Alphabets::CAPITAL_LETTER_G.items()),
        ("CAPITAL_LETTER_H", Alphabets::CAPITAL_LETTER_H.items()),
        ("CAPITAL_LETTER_I", Alphabets::CAPITAL_LETTER_I.items()),
        ("CAPITAL_LETTER_J", Alphabets::CAPITAL_LETTER_J.items()),
        ("CAPITAL_LETTER_K", Alphabets::CAPITAL_LETTER_K.items()),
        ("CAPITAL_LETTER_L", Alphabets::CAPITAL_LETTER_L.items()),
        ("CAPITAL_LETTER_M", Alphabets::CAPITAL_LETTER_M.items()),
        ("CAPITAL_LETTER_N", Alphabets::CAPITAL_LETTER_N.items()),
        ("CAPITAL_LETTER_O", Alphabets::CAPITAL_LETTER_O.items()),
        ("CAPITAL_LETTER_P", Alphabets::CAPITAL_LETTER_P.items()),
        ("CAPITAL_LETTER_Q", Alphabets::CAPITAL_LETTER_Q.items()),
        ("CAPITAL_LETTER_R", Alphabets::CAPITAL_LETTER_R.items()),
        ("CAPITAL_LETTER_S", Alphabets::CAPITAL_LETTER_S.items()),
        ("CAPITAL_LETTER_T", Alphabets::CAPITAL_LETTER_T.items()),
        ("CAPITAL_LETTER_U", Alphabets::CAPITAL_LETTER_U.items()),
        ("CAPITAL_LETTER_V", Alphabets::CAPITAL_LETTER_V.items()),
        ("CAPITAL_LETTER_W", Alphabets::CAPITAL_LETTER_W.items()),
        ("CAPITAL_LETTER_X", Alphabets::CAPITAL_LETTER_X.items()),
        ("CAPITAL_LETTER_Y", Alphabets::CAPITAL_LETTER_Y.items()),
        ("CAPITAL_LETTER_Z", Alphabets::CAPITAL_LETTER_Z.items()),
        ("SMALL_LETTER_A", Alphabets::SMALL_LETTER_A.items()),
        ("SMALL_LETTER_B", Alphabets::SMALL_LETTER_B.items()),
        ("SMALL_LETTER_C", Alphabets::SMALL_LETTER_C.items()),
        ("SMALL_LETTER_D", Alphabets::SMALL_LETTER_D.items()),
        ("SMALL_LETTER_E", Alphabets::SMALL_LETTER_E.items()),
        ("SMALL_LETTER_F", Alphabets::SMALL_LETTER_F.items()),
        ("SMALL_LETTER_G", Alphabets::SMALL_LETTER_G.items()),
        ("SMALL_LETTER_H", Alphabets::SMALL_LETTER_H.items()),
        ("SMALL_LETTER_I", Alphabets::SMALL_LETTER_I.items()),
        ("SMALL_LETTER_J", Alphabets::SMALL_LETTER_J.items()),
        ("SMALL_LETTER_K", Alphabets::SMALL_LETTER_K.items()),
        ("SMALL_LETTER_L", Alphabets::SMALL_LETTER_L.items()),
        ("SMALL_LETTER_M", Alphabets::SMALL_LETTER_M.items()),
        ("SMALL_LETTER_N", Alphabets::SMALL_LETTER_N.items()),
        ("SMALL_LETTER_O", Alphabets::SMALL_LETTER_O.items()),
        ("SMALL_LETTER_P", Alphabets::SMALL_LETTER_P.items()),
        ("SMALL_LETTER_Q", Alphabets::SMALL_LETTER_Q.items()),
        ("SMALL_LETTER_R", Alphabets::SMALL_LETTER_R.items()),
        ("SMALL_LETTER_S", Alphabets::SMALL_LETTER_S.items()),
        ("SMALL_LETTER_T", Alphabets::SMALL_LETTER_T.items()),
        ("SMALL_LETTER_U", Alphabets::SMALL_LETTER_U.items()),
        ("SMALL_LETTER_V", Alphabets::SMALL_LETTER_V.items()),
        ("SMALL_LETTER_W", Alphabets::SMALL_LETTER_W.items()),
        ("SMALL_LETTER_X", Alphabets::SMALL_LETTER_X.items()),
        ("SMALL_LETTER_Y", Alphabets::SMALL_LETTER_Y.items()),
        ("SMALL_LETTER_Z", Alphabets::SMALL_LETTER_Z.items()),
    ]
}

pub fn digits__names() -> Vec<(&'static str, Vec<Item>)> {
    vec![
        ("DIGIT_ZERO", Digits::DIGIT_ZERO.items()),
        ("DIGIT_ONE", Digits::DIGIT_ONE.items()),
        ("DIGIT_TWO", Digits::DIGIT_TWO.items()),
        ("DIGIT_THREE", Digits::DIGIT_THREE.items()),
        ("DIGIT_FOUR", Digits::DIGIT_FOUR.items()),
        ("DIGIT_FIVE", Digits::DIGIT_FIVE.items()),
        ("DIGIT_SIX", Digits::DIGIT_SIX.items()),
        ("DIGIT_SEVEN", Digits::DIGIT_SEVEN.items()),
        ("DIGIT_EIGHT", Digits::DIGIT_EIGHT.items()),
        ("DIGIT_NINE", Digits::DIGIT_NINE.items()),
    ]
}

pub fn punctuations__names() -> Vec<(&'static str, Vec<Item>)> {
    vec![
        ("EXCLAMATION_MARK", Punctuations::EXCLAMATION_MARK.items()),
        ("QUOTATION_MARK", Punctuations::QUOTATION_MARK.items()),
        ("SHARP", Punctuations::SHARP.items()),
        ("DOLLER_SIGN", Punctuations::DOLLER_SIGN.items()),
        ("PERCENT_SIGN", Punctuations::PERCENT_SIGN.items()),
        ("AMPERSAND", Punctuations::AMPERSAND.items()),
        ("APOSTROPHE", Punctuations::APOSTROPHE.items()),
        ("LEFT_PARENTHESIS", Punctuations::LEFT_PARENTHESIS.items()),
        ("RIGHT_PARENTHESIS", Punctuations::RIGHT_PARENTHESIS.items()),
        ("ASTERISK", Punctuations::ASTERISK.items()),
        ("PLUS_SIGN", Punctuations::PLUS_SIGN.items()),
        ("COMMA", Punctuations::COMMA.items()),
        ("HYPHEN_MINUS", Punctuations::HYPHEN_MINUS.items()),
        ("FULL_STOP", Punctuations::FULL_STOP.items()),
        ("SLASH", Punctuations::SLASH.items()),
        ("COLON", Punctuations::COLON.items()),
        ("SEMI_COLON", Punctuations::SEMI_COLON.items()),
        ("LESS_THAN_SIGN", Punctuations::LESS_THAN_SIGN.items()),
        ("EQUAL_SIGN", Punctuations::EQUAL_SIGN.items()),
        ("GREATER_THAN_SIGN", Punctuations::GREATER_THAN_SIGN.items()),
        ("QUESTION_MARK", Punctuations::QUESTION_MARK.items()),
        ("AT_SIGN", Punctuations::AT_SIGN.items()),
        ("LEFT_SQUARE_BRACKET", Punctuations::LEFT_SQUARE_BRACKET.items()),
        ("BACKSLASH", Punctuations::BACKSLASH.items()),
        ("YEN_SIGN", Punctuations::YEN_SIGN.items()),
        ("RIGHT_SQUARE_BRACKET", Punctuations::RIGHT_SQUARE_BRACKET.items()),
        ("CIRCUMFLEX_ACCENT", Punctuations::CIRCUMFLEX_ACCENT.items()),
        ("LOW_LINE", Punctuations::LOW_LINE.items()),
        ("GRAVE_ACCENT", Punctuations::GRAVE_ACCENT.items()),
        ("LEFT_CURLY_BRACKET", Punctuations::LEFT_CURLY_BRACKET.items()),
        ("VERTICAL_BAR", Punctuations::VERTICAL_BAR.items()),
        ("RIGHT_CURLY_BRACKET", Punctuations::RIGHT_CURLY_BRACKET.items()),
        ("TILDE", Punctuations::TILDE.items()),
    ]
}

pub fn kanas__names() -> Vec<(&'static str, Vec<Item>)> {
    vec![
        ("KATAKANA_LETTER_SMALL_A", Kanas::KATAKANA_LETTER_SMALL_A.items()),
        ("KATAKANA_LETTER_A", Kanas::KATAKANA_LETTER_A.items()),
        ("KATAKANA_LETTER_SMALL_I", Kanas::KATAKANA_LETTER_SMALL_I.items()),
        ("KATAKANA_LETTER_I", Kanas::KATAKANA_LETTER_I.items()),
        ("KATAKANA_LETTER_SMALL_U", Kanas::KATAKANA_LETTER_SMALL_U.items()),
        ("KATAKANA_LETTER_U", Kanas::KATAKANA_LETTER_U.items()),
        ("KATAKANA_LETTER_SMALL_E", Kanas::KATAKANA_LETTER_SMALL_E.items()),
        ("KATAKANA_LETTER_E", Kanas::KATAKANA_LETTER_E.items()),
        ("KATAKANA_LETTER_SMALL_O", Kanas::KATAKANA_LETTER_SMALL_O.items()),
        ("KATAKANA_LETTER_O", Kanas::KATAKANA_LETTER_O.items()),
        ("KATAKANA_LETTER_KA", Kanas::KATAKANA_LETTER_KA.items()),
        ("KATAKANA_LETTER_KI", Kanas::KATAKANA_LETTER_KI.items()),
        ("KATAKANA_LETTER_KU", Kanas::KATAKANA_LETTER_KU.items()),
        ("KATAKANA_LETTER_KE", Kanas::KATAKANA_LETTER_KE.items()),
        ("KATAKANA_LETTER_KO", Kanas::KATAKANA_LETTER_KO.items()),
        ("KATAKANA_LETTER_SA", Kanas::KATAKANA_LETTER_SA.items()),
        ("KATAKANA_LETTER_SI", Kanas::KATAKANA_LETTER_SI.items()),
        ("KATAKANA_LETTER_SU", Kanas::KATAKANA_LETTER_SU.items()),
        ("KATAKANA_LETTER_SE", Kanas::KATAKANA_LETTER_SE.items()),
        ("KATAKANA_LETTER_SO", Kanas::KATAKANA_LETTER_SO.items()),
        ("KATAKANA_LETTER_TA", Kanas::KATAKANA_LETTER_TA.items()),
        ("KATAKANA_LETTER_TI", Kanas::KATAKANA_LETTER_TI.items()),
        ("KATAKANA_LETTER_SMALL_TU", Kanas::KATAKANA_LETTER_SMALL_TU.items()),
        ("KATAKANA_LETTER_TU", Kanas::KATAKANA_LETTER_TU.items()),
        ("KATAKANA_LETTER_TE", Kanas::KATAKANA_LETTER_TE.items()),
        ("KATAKANA_LETTER_TO", Kanas::KATAKANA_LETTER_TO.items()),
        ("KATAKANA_LETTER_NA", Kanas::KATAKANA_LETTER_NA.items()),
        ("KATAKANA_LETTER_NI", Kanas::KATAKANA_LETTER_NI.items()),
        ("KATAKANA_LETTER_NU", Kanas::KATAKANA_LETTER_NU.items()),
        ("KATAKANA_LETTER_NE", Kanas::KATAKANA_LETTER_NE.items()),
        ("KATAKANA_LETTER_NO", Kanas::KATAKANA_LETTER_NO.items()),
        ("KATAKANA_LETTER_HA", Kanas::KATAKANA_LETTER_HA.items()),
        ("KATAKANA_LETTER_HI", Kanas::KATAKANA_LETTER_HI.items()),
        ("KATAKANA_LETTER_HU", Kanas::KATAKANA_LETTER_HU.items()),
        ("KATAKANA_LETTER_HE", Kanas::KATAKANA_LETTER_HE.items()),
        ("KATAKANA_LETTER_HO", Kanas::KATAKANA_LETTER_HO.items()),
        ("KATAKANA_LETTER_MA", Kanas::KATAKANA_LETTER_MA.items()),
        ("KATAKANA_LETTER_MI", Kanas::KATAKANA_LETTER_MI.items()),
        ("KATAKANA_LETTER_MU", Kanas::KATAKANA_LETTER_MU.items()),
        ("KATAKANA_LETTER_ME", Kanas::KATAKANA_LETTER_ME.items()),
        ("KATAKANA_LETTER_MO", Kanas::KATAKANA_LETTER_MO.items()),
        ("KATAKANA_LETTER_SMALL_YA", Kanas::KATAKANA_LETTER_SMALL_YA.items()),
        ("KATAKANA_LETTER_YA", Kanas::KATAKANA_LETTER_YA.items()),
        ("KATAKANA_LETTER_SMALL_YU", Kanas::KATAKANA_LETTER_SMALL_YU.items()),
        ("KATAKANA_LETTER_YU", Kanas::KATAKANA_LETTER_YU.items()),
        ("KATAKANA_LETTER_SMALL_YO", Kanas::KATAKANA_LETTER_SMALL_YO.items()),
        ("KATAKANA_LETTER_YO", Kanas::KATAKANA_LETTER_YO.items()),
        ("KATAKANA_LETTER_RA", Kanas::KATAKANA_LETTER_RA.items()),
        ("KATAKANA_LETTER_RI", Kanas::KATAKANA_LETTER_RI.items()),
        ("KATAKANA_LETTER_RU", Kanas::KATAKANA_LETTER_RU.items()),
        ("KATAKANA_LETTER_RE", Kanas::KATAKANA_LETTER_RE.items()),
        ("KATAKANA_LETTER_RO", Kanas::KATAKANA_LETTER_RO.items()),
        ("KATAKANA_LETTER_WA", Kanas::KATAKANA_LETTER_WA.items()),
        ("KATAKANA_LETTER_WO", Kanas::KATAKANA_LETTER_WO.items()),
        ("KATAKANA_LETTER_N", Kanas::KATAKANA_LETTER_N.items()),
        ("IDEOGRAPHIC_COMMA", Kanas::IDEOGRAPHIC_COMMA.items()),
        ("IDEOGRAPHIC_FULL_STOP", Kanas::IDEOGRAPHIC_FULL_STOP.items()),
        ("KATAKANA_MIDDLE_DOT", Kanas::KATAKANA_MIDDLE_DOT.items()),
        ("LEFT_CORNER_BRACKET", Kanas::LEFT_CORNER_BRACKET.items()),
        ("RIGHT_CORNER_BRACKET", Kanas::RIGHT_CORNER_BRACKET.items()),
        ("IDEOGRAPHIC_SPACE", Kanas::IDEOGRAPHIC_SPACE.items()),
    ]
}

pub fn cjk_compatibilities__names() -> Vec<(&'static str, Vec<Item>)> {
    vec![
        ("SQUARE_APAATO", cjk::SQUARE_APAATO.items()),
        ("SQUARE_ARUHUA", cjk::SQUARE_ARUHUA.items()),
        ("SQUARE_ANPEA", cjk::SQUARE_ANPEA.items()),
        ("SQUARE_AARU", cjk::SQUARE_AARU.items()),
        ("SQUARE_ININGU", cjk::SQUARE_ININGU.items()),
        ("SQUARE_INTI", cjk::SQUARE_INTI.items()),
        ("SQUARE_UON", cjk::SQUARE_UON.items()),
        ("SQUARE_ESUKUUDO", cjk::SQUARE_ESUKUUDO.items()),
        ("SQUARE_EEKAA", cjk::SQUARE_EEKAA.items()),
        ("SQUARE_ONSU", cjk::SQUARE_ONSU.items()),
        ("SQUARE_OOMU", cjk::SQUARE_OOMU.items()),
        ("SQUARE_KAIRI", cjk::SQUARE_KAIRI.items()),
        ("SQUARE_KARATTO", cjk::SQUARE_KARATTO.items()),
        ("SQUARE_KARORII", cjk::SQUARE_KARORII.items()),
        ("SQUARE_GARON", cjk::SQUARE_GARON.items()),
        ("SQUARE_GANMA", cjk::SQUARE_GANMA.items()),
        ("SQUARE_GIGA", cjk::SQUARE_GIGA.items()),
        ("SQUARE_GINII", cjk::SQUARE_GINII.items()),
        ("SQUARE_KYURII", cjk::SQUARE_KYURII.items()),
        ("SQUARE_GIRUDAA", cjk::SQUARE_GIRUDAA.items()),
        ("SQUARE_KIRO", cjk::SQUARE_KIRO.items()),
        ("SQUARE_KIROGURAMU", cjk::SQUARE_KIROGURAMU.items()),
        ("SQUARE_KIROMEETORU", cjk::SQUARE_KIROMEETORU.items()),
        ("SQUARE_KIROWATTO", cjk::SQUARE_KIROWATTO.items()),
        ("SQUARE_GURAMU", cjk::SQUARE_GURAMU.items()),
        ("SQUARE_GURAMUTON", cjk::SQUARE_GURAMUTON.items()),
        ("SQUARE_KURUZEIRO", cjk::SQUARE_KURUZEIRO.items()),
        ("SQUARE_KUROONE", cjk::SQUARE_KUROONE.items()),
        ("SQUARE_KEESU", cjk::SQUARE_KEESU.items()),
        ("SQUARE_KORUNA", cjk::SQUARE_KORUNA.items()),
        ("SQUARE_KOOPO", cjk::SQUARE_KOOPO.items()),
        ("SQUARE_SAIKURU", cjk::SQUARE_SAIKURU.items()),
        ("SQUARE_SANTIIMU", cjk::SQUARE_SANTIIMU.items()),
        ("SQUARE_SIRINGU", cjk::SQUARE_SIRINGU.items()),
        ("SQUARE_SENTI", cjk::SQUARE_SENTI.items()),
        ("SQUARE_SENTO", cjk::SQUARE_SENTO.items()),
        ("SQUARE_DAASU", cjk::SQUARE_DAASU.items()),
        ("SQUARE_DESI", cjk::SQUARE_DESI.items()),
        ("SQUARE_DORU", cjk::SQUARE_DORU.items()),
        ("SQUARE_TON", cjk::SQUARE_TON.items()),
        ("SQUARE_NANO", cjk::SQUARE_NANO.items()),
        ("SQUARE_NOTTO", cjk::SQUARE_NOTTO.items()),
        ("SQUARE_HAITU", cjk::SQUARE_HAITU.items()),
        ("SQUARE_PAASENTO", cjk::SQUARE_PAASENTO.items()),
        ("SQUARE_PAATU", cjk::SQUARE_PAATU.items()),
        ("SQUARE_BAARERU", cjk::SQUARE_BAARERU.items()),
        ("SQUARE_PIASUTORU", cjk::SQUARE_PIASUTORU.items()),
        ("SQUARE_PIKURU", cjk::SQUARE_PIKURU.items()),
        ("SQUARE_PIKO", cjk::SQUARE_PIKO.items()),
        ("SQUARE_BIRU", cjk::SQUARE_BIRU.items()),
        ("SQUARE_HUARADDO", cjk::SQUARE_HUARADDO.items()),
        ("SQUARE_HUIITO", cjk::SQUARE_HUIITO.items()),
        ("SQUARE_BUSSYERU", cjk::SQUARE_BUSSYERU.items()),
        ("SQUARE_HURAN", cjk::SQUARE_HURAN.items()),
        ("SQUARE_HEKUTAARU", cjk::SQUARE_HEKUTAARU.items()),
        ("SQUARE_PESO", cjk::SQUARE_PESO.items()),
        ("SQUARE_PENIHI", cjk::SQUARE_PENIHI.items()),
        ("SQUARE_HERUTU", cjk::SQUARE_HERUTU.items()),
        ("SQUARE_PENSU", cjk::SQUARE_PENSU.items()),
        ("SQUARE_PEEZI", cjk::SQUARE_PEEZI.items()),
        ("SQUARE_BEETA", cjk::SQUARE_BEETA.items()),
        ("SQUARE_POINTO", cjk::SQUARE_POINTO.items()),
        ("SQUARE_BORUTO", cjk::SQUARE_BORUTO.items()),
        ("SQUARE_HON", cjk::SQUARE_HON.items()),
        ("SQUARE_PONDO", cjk::SQUARE_PONDO.items()),
        ("SQUARE_HOORU", cjk::SQUARE_HOORU.items()),
        ("SQUARE_HOON", cjk::SQUARE_HOON.items()),
        ("SQUARE_MAIKURO", cjk::SQUARE_MAIKURO.items()),
        ("SQUARE_MAIRU", cjk::SQUARE_MAIRU.items()),
        ("SQUARE_MAHHA", cjk::SQUARE_MAHHA.items()),
        ("SQUARE_MARUKU", cjk::SQUARE_MARUKU.items()),
        ("SQUARE_MANSYON", cjk::SQUARE_MANSYON.items()),
        ("SQUARE_MIKURON", cjk::SQUARE_MIKURON.items()),
        ("SQUARE_MIRI", cjk::SQUARE_MIRI.items()),
        ("SQUARE_MIRIBAARU", cjk::SQUARE_MIRIBAARU.items()),
        ("SQUARE_MEGA", cjk::SQUARE_MEGA.items()),
        ("SQUARE_MEGATON", cjk::SQUARE_MEGATON.items()),
        ("SQUARE_MEETORU", cjk::SQUARE_MEETORU.items()),
        ("SQUARE_YAADO", cjk::SQUARE_YAADO.items()),
        ("SQUARE_YAARU", cjk::SQUARE_YAARU.items()),
        ("SQUARE_YUAN", cjk::SQUARE_YUAN.items()),
        ("SQUARE_RITTORU", cjk::SQUARE_RITTORU.items()),
        ("SQUARE_RIRA", cjk::SQUARE_RIRA.items()),
        ("SQUARE_RUPII", cjk::SQUARE_RUPII.items()),
        ("SQUARE_RUUBURU", cjk::SQUARE_RUUBURU.items()),
        ("SQUARE_REMU", cjk::SQUARE_REMU.items()),
        ("SQUARE_RENTOGEN", cjk::SQUARE_RENTOGEN.items()),
        ("SQUARE_WATTO", cjk::SQUARE_WATTO.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ZERO.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ONE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWO.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THREE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOUR.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIVE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIX.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHT.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_ELEVEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWELVE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_THIRTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FOURTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_FIFTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SIXTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_SEVENTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_EIGHTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_NINETEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_ONE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_TWO.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_THREE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_HOUR_TWENTY_FOUR.items()),
        ("SQUARE_HPA", cjk::SQUARE_HPA.items()),
        ("SQUARE_DA", cjk::SQUARE_DA.items()),
        ("SQUARE_AU", cjk::SQUARE_AU.items()),
        ("SQUARE_BAR", cjk::SQUARE_BAR.items()),
        ("SQUARE_OV", cjk::SQUARE_OV.items()),
        ("SQUARE_PC", cjk::SQUARE_PC.items()),
        ("SQUARE_DM", cjk::SQUARE_DM.items()),
        ("SQUARE_DM_SQUARED", cjk::SQUARE_DM_SQUARED.items()),
        ("SQUARE_DM_CUBED", cjk::SQUARE_DM_CUBED.items()),
        ("SQUARE_IU", cjk::SQUARE_IU.items()),
        ("SQUARE_ERA_NAME_HEISEI", cjk::SQUARE_ERA_NAME_HEISEI.items()),
        ("SQUARE_ERA_NAME_SYOUWA", cjk::SQUARE_ERA_NAME_SYOUWA.items()),
        ("SQUARE_ERA_NAME_TAISYOU", cjk::SQUARE_ERA_NAME_TAISYOU.items()),
        ("SQUARE_ERA_NAME_MEIZI", cjk::SQUARE_ERA_NAME_MEIZI.items()),
        ("SQUARE_CORPORATION", cjk::SQUARE_CORPORATION.items()),
        ("SQUARE_PA_AMPS", cjk::SQUARE_PA_AMPS.items()),
        ("SQUARE_NA", cjk::SQUARE_NA.items()),
        ("SQUARE_MU_A", cjk::SQUARE_MU_A.items()),
        ("SQUARE_MA", cjk::SQUARE_MA.items()),
        ("SQUARE_KA", cjk::SQUARE_KA.items()),
        ("SQUARE_KB", cjk::SQUARE_KB.items()),
        ("SQUARE_MB", cjk::SQUARE_MB.items()),
        ("SQUARE_GB", cjk::SQUARE_GB.items()),
        ("SQUARE_CAL", cjk::SQUARE_CAL.items()),
        ("SQUARE_KCAL", cjk::SQUARE_KCAL.items()),
        ("SQUARE_PF", cjk::SQUARE_PF.items()),
        ("SQUARE_NF", cjk::SQUARE_NF.items()),
        ("SQUARE_MU_F", cjk::SQUARE_MU_F.items()),
        ("SQUARE_MU_G", cjk::SQUARE_MU_G.items()),
        ("SQUARE_MG", cjk::SQUARE_MG.items()),
        ("SQUARE_KG", cjk::SQUARE_KG.items()),
        ("SQUARE_HZ", cjk::SQUARE_HZ.items()),
        ("SQUARE_KHZ", cjk::SQUARE_KHZ.items()),
        ("SQUARE_MHZ", cjk::SQUARE_MHZ.items()),
        ("SQUARE_GHZ", cjk::SQUARE_GHZ.items()),
        ("SQUARE_THZ", cjk::SQUARE_THZ.items()),
        ("SQUARE_MU_L", cjk::SQUARE_MU_L.items()),
        ("SQUARE_ML", cjk::SQUARE_ML.items()),
        ("SQUARE_DL", cjk::SQUARE_DL.items()),
        ("SQUARE_KL", cjk::SQUARE_KL.items()),
        ("SQUARE_FM", cjk::SQUARE_FM.items()),
        ("SQUARE_NM", cjk::SQUARE_NM.items()),
        ("SQUARE_MU_M", cjk::SQUARE_MU_M.items()),
        ("SQUARE_MM", cjk::SQUARE_MM.items()),
        ("SQUARE_CM", cjk::SQUARE_CM.items()),
        ("SQUARE_KM", cjk::SQUARE_KM.items()),
        ("SQUARE_MM_SQUARED", cjk::SQUARE_MM_SQUARED.items()),
        ("SQUARE_CM_SQUARED", cjk::SQUARE_CM_SQUARED.items()),
        ("SQUARE_M_SQUARED", cjk::SQUARE_M_SQUARED.items()),
        ("SQUARE_KM_SQUARED", cjk::SQUARE_KM_SQUARED.items()),
        ("SQUARE_MM_CUBED", cjk::SQUARE_MM_CUBED.items()),
        ("SQUARE_CM_CUBED", cjk::SQUARE_CM_CUBED.items()),
        ("SQUARE_M_CUBED", cjk::SQUARE_M_CUBED.items()),
        ("SQUARE_KM_CUBED", cjk::SQUARE_KM_CUBED.items()),
        ("SQUARE_M_OVER_S", cjk::SQUARE_M_OVER_S.items()),
        ("SQUARE_M_OVER_S_SQUARED", cjk::SQUARE_M_OVER_S_SQUARED.items()),
        ("SQUARE_PA", cjk::SQUARE_PA.items()),
        ("SQUARE_KPA", cjk::SQUARE_KPA.items()),
        ("SQUARE_MPA", cjk::SQUARE_MPA.items()),
        ("SQUARE_GPA", cjk::SQUARE_GPA.items()),
        ("SQUARE_RAD", cjk::SQUARE_RAD.items()),
        ("SQUARE_RAD_OVER_S", cjk::SQUARE_RAD_OVER_S.items()),
        ("SQUARE_RAD_OVER_S_SQUARED", cjk::SQUARE_RAD_OVER_S_SQUARED.items()),
        ("SQUARE_PS", cjk::SQUARE_PS.items()),
        ("SQUARE_NS", cjk::SQUARE_NS.items()),
        ("SQUARE_MU_S", cjk::SQUARE_MU_S.items()),
        ("SQUARE_MS", cjk::SQUARE_MS.items()),
        ("SQUARE_PV", cjk::SQUARE_PV.items()),
        ("SQUARE_NV", cjk::SQUARE_NV.items()),
        ("SQUARE_MU_V", cjk::SQUARE_MU_V.items()),
        ("SQUARE_MV", cjk::SQUARE_MV.items()),
        ("SQUARE_KV", cjk::SQUARE_KV.items()),
        ("SQUARE_MV_MEGA", cjk::SQUARE_MV_MEGA.items()),
        ("SQUARE_PW", cjk::SQUARE_PW.items()),
        ("SQUARE_NW", cjk::SQUARE_NW.items()),
        ("SQUARE_MU_W", cjk::SQUARE_MU_W.items()),
        ("SQUARE_MW", cjk::SQUARE_MW.items()),
        ("SQUARE_KW", cjk::SQUARE_KW.items()),
        ("SQUARE_MW_MEGA", cjk::SQUARE_MW_MEGA.items()),
        ("SQUARE_K_OHM", cjk::SQUARE_K_OHM.items()),
        ("SQUARE_M_OHM", cjk::SQUARE_M_OHM.items()),
        ("SQUARE_AM", cjk::SQUARE_AM.items()),
        ("SQUARE_BQ", cjk::SQUARE_BQ.items()),
        ("SQUARE_CC", cjk::SQUARE_CC.items()),
        ("SQUARE_CD", cjk::SQUARE_CD.items()),
        ("SQUARE_C_OVER_KG", cjk::SQUARE_C_OVER_KG.items()),
        ("SQUARE_CO", cjk::SQUARE_CO.items()),
        ("SQUARE_DB", cjk::SQUARE_DB.items()),
        ("SQUARE_GY", cjk::SQUARE_GY.items()),
        ("SQUARE_HA", cjk::SQUARE_HA.items()),
        ("SQUARE_HP", cjk::SQUARE_HP.items()),
        ("SQUARE_IN", cjk::SQUARE_IN.items()),
        ("SQUARE_KK", cjk::SQUARE_KK.items()),
        ("SQUARE_KM_CAPITAL", cjk::SQUARE_KM_CAPITAL.items()),
        ("SQUARE_KT", cjk::SQUARE_KT.items()),
        ("SQUARE_LM", cjk::SQUARE_LM.items()),
        ("SQUARE_LN", cjk::SQUARE_LN.items()),
        ("SQUARE_LOG", cjk::SQUARE_LOG.items()),
        ("SQUARE_LX", cjk::SQUARE_LX.items()),
        ("SQUARE_MB_SMALL", cjk::SQUARE_MB_SMALL.items()),
        ("SQUARE_MIL", cjk::SQUARE_MIL.items()),
        ("SQUARE_MOL", cjk::SQUARE_MOL.items()),
        ("SQUARE_PH", cjk::SQUARE_PH.items()),
        ("SQUARE_PM", cjk::SQUARE_PM.items()),
        ("SQUARE_PPM", cjk::SQUARE_PPM.items()),
        ("SQUARE_PR", cjk::SQUARE_PR.items()),
        ("SQUARE_SR", cjk::SQUARE_SR.items()),
        ("SQUARE_SV", cjk::SQUARE_SV.items()),
        ("SQUARE_WB", cjk::SQUARE_WB.items()),
        ("SQUARE_V_OVER_M", cjk::SQUARE_V_OVER_M.items()),
        ("SQUARE_A_OVER_M", cjk::SQUARE_A_OVER_M.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ONE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWO.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THREE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOUR.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIVE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIX.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHT.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_ELEVEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWELVE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FOURTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_FIFTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SIXTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_SEVENTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_EIGHTEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_NINETEEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_ONE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_TWO.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_THREE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FOUR.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_FIVE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SIX.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_SEVEN.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_EIGHT.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_TWENTY_NINE.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY.items()),
        ("IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE", cjk::IDEOGRAPHIC_TELEGRAPH_SYMBOL_FOR_DAY_THIRTY_ONE.items()),
        ("SQUARE_GAL", cjk::SQUARE_GAL.items()),
    ]
}
