/* The published t1ha reference vectors (81 per function), copied once from the pinned release. */
#include <stdint.h>
static const uint64_t VEC_32le[81] = {
  0ull, 0xC92229C10FAEA50Eull, 0x3DF1354B0DFDC443ull, 0x968F016D60417BB3ull,
  0x85AAFB50C6DA770Full, 0x66CCE3BB6842C7D6ull, 0xDDAA39C11537C226ull, 0x35958D281F0C9C8Cull,
  0x8C5D64B091DE608Eull, 0x4094DF680D39786Bull, 0x1014F4AA2A2EDF4Dull, 0x39D21891615AA310ull,
  0x7EF51F67C398C7C4ull, 0x06163990DDBF319Dull, 0xE229CAA00C8D6F3Full, 0xD2240B4B0D54E0F5ull,
  0xEA2E7E905DDEAF94ull, 0x8D4F8A887183A5CEull, 0x44337F9A63C5820Cull, 0x94938D1E86A9B797ull,
  0x96E9CABA5CA210CCull, 0x6EFBB9CC9E8F7708ull, 0x3D12EA0282FB8BBCull, 0x5DA781EE205A2C48ull,
  0xFA4A51A12677FE12ull, 0x81D5F04E20660B28ull, 0x57258D043BCD3841ull, 0x5C9BEB62059C1ED2ull,
  0x57A02162F9034B33ull, 0xBA2A13E457CE19B8ull, 0xE593263BF9451F3Aull, 0x0BC1175539606BC5ull,
  0xA3E2929E9C5F289Full, 0x86BDBD06835E35F7ull, 0xA180950AB48BAADCull, 0x7812C994D9924028ull,
  0x308366011415F46Bull, 0x77FE9A9991C5F959ull, 0x925C340B70B0B1E3ull, 0xCD9C5BA4C41E2E10ull,
  0x7CC4E7758B94CD93ull, 0x898B235962EA4625ull, 0xD7E3E5BF22893286ull, 0x396F4CDD33056C64ull,
  0x740AB2E32F17CD9Full, 0x60D12FF9CD15B321ull, 0xBEE3A6C9903A81D8ull, 0xB47040913B33C35Eull,
  0x19EE8C2ACC013CFFull, 0x5DEC94C5783B55C4ull, 0x78DC122D562C5F1Dull, 0x6520F008DA1C181Eull,
  0x77CAF155A36EBF7Cull, 0x0A09E02BDB883CA6ull, 0xFD5D9ADA7E3FB895ull, 0xC6F5FDD9EEAB83B5ull,
  0x84589BB29F52A92Aull, 0x9B2517F13F8E9814ull, 0x6F752AF6A52E31ECull, 0x8E717799E324CE8Aull,
  0x84D90AEF39262D58ull, 0x79C27B13FC28944Dull, 0xE6D6DF6438E0044Aull, 0x51B603E400D79CA4ull,
  0x6A902B28C588B390ull, 0x8D7F8DE9E6CB1D83ull, 0xCF1A4DC11CA7F044ull, 0xEF02E43C366786F1ull,
  0x89915BCDBCFBE30Full, 0x5928B306F1A9CC7Full, 0xA8B59092996851C5ull, 0x22050A20427E8B25ull,
  0x6E6D64018941E7EEull, 0x9798C898B81AE846ull, 0x80EF218CDC30124Aull, 0xFCE45E60D55B0284ull,
  0x4010E735D3147C35ull, 0xEB647D999FD8DC7Eull, 0xD3544DCAB14FE907ull, 0xB588B27D8438700Cull,
  0xA49EBFC43E057A4Cull,
};
static const uint64_t VEC_32be[81] = {
  0ull, 0xC92229C10FAEA50Eull, 0x0FE212630DD87E0Full, 0x968F016D60417BB3ull,
  0xE6B12B2C889913ABull, 0xAA3787887A9DA368ull, 0x06EE7202D53CEF39ull, 0x6149AFB2C296664Bull,
  0x86C893210F9A5805ull, 0x8379E5DA988AA04Cull, 0x24763AA7CE411A60ull, 0x9CF9C64B395A4CF8ull,
  0xFFC192C338DDE904ull, 0x094575BAB319E5F5ull, 0xBBBACFE7728C6511ull, 0x36B8C3CEBE4EF409ull,
  0xAA0BA8A3397BA4D0ull, 0xF9F85CF7124EE653ull, 0x3ADF4F7DF2A887AEull, 0xAA2A0F5964AA9A7Aull,
  0xF18B563F42D36EB8ull, 0x034366CEF8334F5Cull, 0xAE2E85180E330E5Full, 0xA5CE9FBFDF5C65B8ull,
  0x5E509F25A9CA9B0Bull, 0xE30D1358C2013BD2ull, 0xBB3A04D5EB8111FEull, 0xB04234E82A15A28Dull,
  0x87426A56D0EA0E2Full, 0x095086668E07F9F8ull, 0xF4CD3A43B6A6AEA5ull, 0x73F9B9B674D472A6ull,
  0x558344229A1E4DCFull, 0x0AD4C95B2279181Aull, 0x5E3D19D80821CA6Bull, 0x652492D25BEBA258ull,
  0xEFA84B02EAB849B1ull, 0x81AD2D253059AC2Cull, 0x1400CCB0DFB2F457ull, 0x5688DC72A839860Eull,
  0x67CC130E0FD1B0A7ull, 0x0A851E3A94E21E69ull, 0x2EA0000B6A073907ull, 0xAE9776FF9BF1D02Eull,
  0xC0A96B66B160631Cull, 0xA93341DE4ED7C8F0ull, 0x6FBADD8F5B85E141ull, 0xB7D295F1C21E0CBAull,
  0x6D6114591B8E434Full, 0xF5B6939B63D97BE7ull, 0x3C80D5053F0E5DB4ull, 0xAC520ACC6B73F62Dull,
  0xD1051F5841CF3966ull, 0x62245AEA644AE760ull, 0x0CD56BE15497C62Dull, 0x5BB93435C4988FB6ull,
  0x5FADB88EB18DB512ull, 0xC897CAE2242475CCull, 0xF1A094EF846DC9BBull, 0x2B1D8B24924F79B6ull,
  0xC6DF0C0E8456EB53ull, 0xE6A40128303A9B9Cull, 0x64D37AF5EFFA7BD9ull, 0x90FEB70A5AE2A598ull,
  0xEC3BA5F126D9FF4Bull, 0x3121C8EC3AC51B29ull, 0x3B41C4D422166EC1ull, 0xB4878DDCBF48ED76ull,
  0x5CB850D77CB762E4ull, 0x9A27A43CC1DD171Full, 0x2FDFFC6F99CB424Aull, 0xF54A57E09FDEA7BBull,
  0x5F78E5EE2CAB7039ull, 0xB8BA95883DB31CBAull, 0x131C61EB84AF86C3ull, 0x84B1F64E9C613DA7ull,
  0xE94C1888C0C37C02ull, 0xEA08F8BFB2039CDEull, 0xCCC6D04D243EC753ull, 0x8977D105298B0629ull,
  0x7AAA976494A5905Eull,
};
static const uint64_t VEC_ia32aes_a[81] = {
  0ull, 0x772C7311BE32FF42ull, 0xB231AC660E5B23B5ull, 0x71F6DF5DA3B4F532ull,
  0x555859635365F660ull, 0xE98808F1CD39C626ull, 0x2EB18FAF2163BB09ull, 0x7B9DD892C8019C87ull,
  0xE2B1431C4DA4D15Aull, 0x1984E718A5477F70ull, 0x08DD17B266484F79ull, 0x4C83A05D766AD550ull,
  0x92DCEBB131D1907Dull, 0xD67BC6FC881B8549ull, 0xF6A9886555FBF66Bull, 0x6E31616D7F33E25Eull,
  0x36E31B7426E3049Dull, 0x4F8E4FAF46A13F5Full, 0x03EB0CB3253F819Full, 0x636A7769905770D2ull,
  0x3ADF3781D16D1148ull, 0x92D19CB1818BC9C2ull, 0x283E68F4D459C533ull, 0xFA83A8A88DECAA04ull,
  0x8C6F00368EAC538Cull, 0x7B66B0CF3797B322ull, 0x5131E122FDABA3FFull, 0x6E59FF515C08C7A9ull,
  0xBA2C5269B2C377B0ull, 0xA9D24FD368FE8A2Bull, 0x22DB13D32E33E891ull, 0x7B97DFC804B876E5ull,
  0xC598BDFCD0E834F9ull, 0xB256163D3687F5A7ull, 0x66D7A73C6AEF50B3ull, 0xBB34C6A4396695D2ull,
  0x7F46E1981C3256ADull, 0x4B25A9B217A6C5B4ull, 0x7A0A6BCDD2321DA9ull, 0x0A1F55E690A7B44Eull,
  0x8F451A91D7F05244ull, 0x624D5D3C9B9800A7ull, 0x09DDC2B6409DDC25ull, 0x3E155765865622B6ull,
  0x96519FAC9511B381ull, 0x512E58482FE4FBF0ull, 0x1AB260EA7D54AE1Cull, 0x67976F12CC28BBBDull,
  0x0607B5B2E6250156ull, 0x7E700BEA717AD36Eull, 0x06A058D9D61CABB3ull, 0x57DA5324A824972Full,
  0x1193BA74DBEBF7E7ull, 0xC18DC3140E7002D4ull, 0x9F7CCC11DFA0EF17ull, 0xC487D6C20666A13Aull,
  0xB67190E4B50EF0C8ull, 0xA53DAA608DF0B9A5ull, 0x7E13101DE87F9ED3ull, 0x7F8955AE2F05088Bull,
  0x2DF7E5A097AD383Full, 0xF027683A21EA14B5ull, 0x9BB8AEC3E3360942ull, 0x92BE39B54967E7FEull,
  0x978C6D332E7AFD27ull, 0xED512FE96A4FAE81ull, 0x9E1099B8140D7BA3ull, 0xDFD5A5BE1E6FE9A6ull,
  0x1D82600E23B66DD4ull, 0x3FA3C3B7EE7B52CEull, 0xEE84F7D2A655EF4Cull, 0x2A4361EC769E3BEBull,
  0x22E4B38916636702ull, 0x0063096F5D39A115ull, 0x6C51B24DAAFA5434ull, 0xBAFB1DB1B411E344ull,
  0xFF529F161AE0C4B0ull, 0x1290EAE3AC0A686Full, 0xA7B0D4585447D1BEull, 0xAED3D18CB6CCAD53ull,
  0xFC73D46F8B41BEC6ull,
};
static const uint64_t VEC_ia32aes_b[81] = {
  0ull, 0x772C7311BE32FF42ull, 0x4398F62A8CB6F72Aull, 0x71F6DF5DA3B4F532ull,
  0x555859635365F660ull, 0xE98808F1CD39C626ull, 0x2EB18FAF2163BB09ull, 0x7B9DD892C8019C87ull,
  0xE2B1431C4DA4D15Aull, 0x1984E718A5477F70ull, 0x08DD17B266484F79ull, 0x4C83A05D766AD550ull,
  0x92DCEBB131D1907Dull, 0xD67BC6FC881B8549ull, 0xF6A9886555FBF66Bull, 0x6E31616D7F33E25Eull,
  0x36E31B7426E3049Dull, 0x4F8E4FAF46A13F5Full, 0x03EB0CB3253F819Full, 0x636A7769905770D2ull,
  0x3ADF3781D16D1148ull, 0x92D19CB1818BC9C2ull, 0x283E68F4D459C533ull, 0xFA83A8A88DECAA04ull,
  0x8C6F00368EAC538Cull, 0x7B66B0CF3797B322ull, 0x5131E122FDABA3FFull, 0x6E59FF515C08C7A9ull,
  0xBA2C5269B2C377B0ull, 0xA9D24FD368FE8A2Bull, 0x22DB13D32E33E891ull, 0x7B97DFC804B876E5ull,
  0xC598BDFCD0E834F9ull, 0xB256163D3687F5A7ull, 0x66D7A73C6AEF50B3ull, 0xE810F88E85CEA11Aull,
  0x4814F8F3B83E4394ull, 0x9CABA22D10A2F690ull, 0x0D10032511F58111ull, 0xE9A36EF5EEA3CD58ull,
  0xC79242DE194D9D7Cull, 0xC3871AA0435EE5C8ull, 0x52890BED43CCF4CDull, 0x07A1D0861ACCD373ull,
  0x227B816FF0FEE9EDull, 0x59FFBF73AACFC0C4ull, 0x09AB564F2BEDAD0Cull, 0xC05F744F2EE38318ull,
  0x7B50B621D547C661ull, 0x0C1F71CB4E68E5D1ull, 0x0E33A47881D4DBAAull, 0xF5C3BF198E9A7C2Eull,
  0x16328FD8C0F68A91ull, 0xA3E399C9AB3E9A59ull, 0x163AE71CBCBB18B8ull, 0x18F17E4A8C79F7ABull,
  0x9250E2EA37014B45ull, 0x7BBBB111D60B03E4ull, 0x3DAA4A3071A0BD88ull, 0xA28828D790A2D6DCull,
  0xBC70FC88F64BE3F1ull, 0xA3E48008BA4333C7ull, 0x739E435ACAFC79F7ull, 0x42BBB360BE007CC6ull,
  0x4FFB6FD2AF74EC92ull, 0x2A799A2994673146ull, 0xBE0A045B69D48E9Full, 0x549432F54FC6A278ull,
  0x371D3C60369FC702ull, 0xDB4557D415B08CA7ull, 0xE8692F0A83850B37ull, 0x022E46AEB36E9AABull,
  0x117AC9B814E4652Dull, 0xA361041267AE9048ull, 0x277CB51C961C3DDAull, 0xAFFC96F377CB8A8Dull,
  0x83CC79FA01DD1BA7ull, 0xA494842ACF4B802Cull, 0xFC6D9CDDE2C34A3Full, 0x4ED6863CE455F7A7ull,
  0x630914D0DB7AAE98ull,
};
static const uint64_t VEC_64le[81] = {
  0ull, 0x6A580668D6048674ull, 0xA2FE904AFF0D0879ull, 0xE3AB9C06FAF4D023ull,
  0x6AF1C60874C95442ull, 0xB3557E561A6C5D82ull, 0x0AE73C696F3D37C0ull, 0x5EF25F7062324941ull,
  0x9B784F3B4CE6AF33ull, 0x6993BB206A74F070ull, 0xF1E95DF109076C4Cull, 0x4E1EB70C58E48540ull,
  0x5FDD7649D8EC44E4ull, 0x559122C706343421ull, 0x380133D58665E93Dull, 0x9CE74296C8C55AE4ull,
  0x3556F9A5757AB6D0ull, 0xF62751F7F25C469Eull, 0x851EEC67F6516D94ull, 0xED463EE3848A8695ull,
  0xDC8791FEFF8ED3ACull, 0x2569C744E1A282CFull, 0xF90EB7C1D70A80B9ull, 0x68DFA6A1B8050A4Cull,
  0x94CCA5E8210D2134ull, 0xF5CC0BEABC259F52ull, 0x40DBC1F51618FDA7ull, 0x0807945BF0FB52C6ull,
  0xE5EF7E09DE70848Dull, 0x63E1DF35FEBE994Aull, 0x2025E73769720D5Aull, 0xAD6120B2B8A152E1ull,
  0x2A71D9F13959F2B7ull, 0x8A20849A27C32548ull, 0x0BCBC9FE3B57884Eull, 0x0E028D255667AEADull,
  0xBE66DAD3043AB694ull, 0xB00E4C1238F9E2D4ull, 0x5C54BDE5AE280E82ull, 0x0E22B86754BC3BC4ull,
  0x016707EBF858B84Dull, 0x990015FBC9E095EEull, 0x8B9AF0A3E71F042Full, 0x6AA56E88BD380564ull,
  0xAACE57113E681A0Full, 0x19F81514AFA9A22Dull, 0x80DABA3D62BEAC79ull, 0x715210412CABBF46ull,
  0xD8FA0B9E9D6AA93Full, 0x6C2FC5A4109FD3A2ull, 0x5B3E60EEB51DDCD8ull, 0x0A7C717017756FE7ull,
  0xA73773805CA31934ull, 0x4DBD6BB7A31E85FDull, 0x24F619D3D5BC2DB4ull, 0x3E4AF35A1678D636ull,
  0x84A1A8DF8D609239ull, 0x359C862CD3BE4FCDull, 0xCF3A39F5C27DC125ull, 0xC0FF62F8FD5F4C77ull,
  0x5E9F2493DDAA166Cull, 0x17424152BE1CA266ull, 0xA78AFA5AB4BBE0CDull, 0x7BFB2E2CEF118346ull,
  0x647C3E0FF3E3D241ull, 0x0352E4055C13242Eull, 0x6F42FC70EB660E38ull, 0x0BEBAD4FABF523BAull,
  0x9269F4214414D61Dull, 0x1CA8760277E6006Cull, 0x7BAD25A859D87B5Dull, 0xAD645ADCF7414F1Dull,
  0xB07F517E88D7AFB3ull, 0xB321C06FB5FFAB5Cull, 0xD50F162A1EFDD844ull, 0x1DFD3D1924FBE319ull,
  0xDFAEAB2F09EF7E78ull, 0xA7603B5AF07A0B1Eull, 0x41CD044C0E5A4EE3ull, 0xF64D2F86E813BF33ull,
  0xFF9FDB99305EB06Aull,
};
static const uint64_t VEC_64be[81] = {
  0ull, 0x6A580668D6048674ull, 0xDECC975A0E3B8177ull, 0xE3AB9C06FAF4D023ull,
  0xE401FA8F1B6AF969ull, 0x67DB1DAE56FB94E3ull, 0x1106266A09B7A073ull, 0x550339B1EF2C7BBBull,
  0x290A2BAF590045BBull, 0xA182C1258C09F54Aull, 0x137D53C34BE7143Aull, 0xF6D2B69C6F42BEDCull,
  0x39643EAF2CA2E4B4ull, 0x22A81F139A2C9559ull, 0x5B3D6AEF0AF33807ull, 0x56E3F80A68643C08ull,
  0x9E423BE502378780ull, 0xCDB0986F9A5B2FD5ull, 0xD5B3C84E7933293Full, 0xE5FB8C90399E9742ull,
  0x5D393C1F77B2CF3Dull, 0xC8C82F5B2FF09266ull, 0xACA0230CA6F7B593ull, 0xCB5805E2960D1655ull,
  0x7E2AD5B704D77C95ull, 0xC5E903CDB8B9EB5Dull, 0x4CC7D0D21CC03511ull, 0x8385DF382CFB3E93ull,
  0xF17699D0564D348Aull, 0xF77EE7F8274A4C8Dull, 0xB9D8CEE48903BABEull, 0xFE0EBD2A82B9CFE9ull,
  0xB49FB6397270F565ull, 0x173735C8C342108Eull, 0xA37C7FBBEEC0A2EAull, 0xC13F66F462BB0B6Eull,
  0x0C04F3C2B551467Eull, 0x76A9CB156810C96Eull, 0x2038850919B0B151ull, 0xCEA19F2B6EED647Bull,
  0x6746656D2FA109A4ull, 0xF05137F221007F37ull, 0x892FA9E13A3B4948ull, 0x4D57B70D37548A32ull,
  0x1A7CFB3D566580E6ull, 0x7CB30272A45E3FACull, 0x137CCFFD9D51423Full, 0xB87D96F3B82DF266ull,
  0x33349AEE7472ED37ull, 0x5CC0D3C99555BC07ull, 0x4A8F4FA196D964EFull, 0xE82A0D64F281FBFAull,
  0x38A1BAC2C36823E1ull, 0x77D197C239FD737Eull, 0xFB07746B4E07DF26ull, 0xC8A2198E967672BDull,
  0x5F1A146D143FA05Aull, 0x26B877A1201AB7ACull, 0x74E5B145214723F8ull, 0xE9CE10E3C70254BCull,
  0x299393A0C05B79E8ull, 0xFD2D2B9822A5E7E2ull, 0x85424FEA50C8E50Aull, 0xE6839E714B1FFFE5ull,
  0x27971CCB46F9112Aull, 0xC98695A2E0715AA9ull, 0x338E1CBB4F858226ull, 0xFC6B5C5CF7A8D806ull,
  0x8973CAADDE8DA50Cull, 0x9C6D47AE32EBAE72ull, 0x1EBF1F9F21D26D78ull, 0x80A9704B8E153859ull,
  0x6AFD20A939F141FBull, 0xC35F6C2B3B553EEFull, 0x59529E8B0DC94C1Aull, 0x1569DF036EBC4FA1ull,
  0xDA32B88593C118F9ull, 0xF01E4155FF5A5660ull, 0x765A2522DCE2B185ull, 0xCEE95554128073EFull,
  0x60F072A5CA51DE2Full,
};
static const uint64_t VEC_2atonce[81] = {
  0ull, 0x772C7311BE32FF42ull, 0x444753D23F207E03ull, 0x71F6DF5DA3B4F532ull,
  0x555859635365F660ull, 0xE98808F1CD39C626ull, 0x2EB18FAF2163BB09ull, 0x7B9DD892C8019C87ull,
  0xE2B1431C4DA4D15Aull, 0x1984E718A5477F70ull, 0x08DD17B266484F79ull, 0x4C83A05D766AD550ull,
  0x92DCEBB131D1907Dull, 0xD67BC6FC881B8549ull, 0xF6A9886555FBF66Bull, 0x6E31616D7F33E25Eull,
  0x36E31B7426E3049Dull, 0x4F8E4FAF46A13F5Full, 0x03EB0CB3253F819Full, 0x636A7769905770D2ull,
  0x3ADF3781D16D1148ull, 0x92D19CB1818BC9C2ull, 0x283E68F4D459C533ull, 0xFA83A8A88DECAA04ull,
  0x8C6F00368EAC538Cull, 0x7B66B0CF3797B322ull, 0x5131E122FDABA3FFull, 0x6E59FF515C08C7A9ull,
  0xBA2C5269B2C377B0ull, 0xA9D24FD368FE8A2Bull, 0x22DB13D32E33E891ull, 0x7B97DFC804B876E5ull,
  0xC598BDFCD0E834F9ull, 0xB256163D3687F5A7ull, 0x66D7A73C6AEF50B3ull, 0x25A7201C85D9E2A3ull,
  0x911573EDA15299AAull, 0x5C0062B669E18E4Cull, 0x17734ADE08D54E28ull, 0xFFF036E33883F43Bull,
  0xFE0756E7777DF11Eull, 0x37972472D023F129ull, 0x6CFCE201B55C7F57ull, 0xE019D1D89F02B3E1ull,
  0xAE5CC580FA1BB7E6ull, 0x295695FB7E59FC3Aull, 0x76B6C820A40DD35Eull, 0xB1680A1768462B17ull,
  0x2FB6AF279137DADAull, 0x28FB6B4366C78535ull, 0xEC278E53924541B1ull, 0x164F8AAB8A2A28B5ull,
  0xB6C330AEAC4578ADull, 0x7F6F371070085084ull, 0x94DEAD60C0F448D3ull, 0x99737AC232C559EFull,
  0x6F54A6F9CA8EDD57ull, 0x979B01E926BFCE0Cull, 0xF7D20BC85439C5B4ull, 0x64EDB27CD8087C12ull,
  0x11488DE5F79C0BE2ull, 0x25541DDD1680B5A4ull, 0x8B633D33BE9D1973ull, 0x404A3113ACF7F6C6ull,
  0xC59DBDEF8550CD56ull, 0x039D23C68F4F992Cull, 0x5BBB48E4BDD6FD86ull, 0x41E312248780DF5Aull,
  0xD34791CE75D4E94Full, 0xED523E5D04DCDCFFull, 0x7A6BCE0B6182D879ull, 0x21FB37483CAC28D8ull,
  0x19A1B66E8DA878ADull, 0x6F804C5295B09ABEull, 0x2A4BE5014115BA81ull, 0xA678ECC5FC924BE0ull,
  0x50F7A54A99A36F59ull, 0x0FD7E63A39A66452ull, 0x5AB1B213DD29C4E4ull, 0xF3ED80D9DF6534C5ull,
  0xC736B12EF90615FDull,
};
static const uint64_t VEC_2atonce128[81] = {
  0x4EC7F6A48E33B00Aull, 0xB7B7FAA5BD7D8C1Eull, 0x3269533F66534A76ull, 0x6C3EC6B687923BFCull,
  0xC096F5E7EFA471A9ull, 0x79D8AFB550CEA471ull, 0xCEE0507A20FD5119ull, 0xFB04CFFC14A9F4BFull,
  0xBD4406E923807AF2ull, 0x375C02FF11010491ull, 0xA6EA4C2A59E173FFull, 0xE0A606F0002CADDFull,
  0xE13BEAE6EBC07897ull, 0xF069C2463E48EA10ull, 0x75BEE1A97089B5FAull, 0x378F22F8DE0B8085ull,
  0x9C726FC4D53D0D8Bull, 0x71F6130A2D08F788ull, 0x7A9B20433FF6CF69ull, 0xFF49B7CD59BF6D61ull,
  0xCCAAEE0D1CA9C6B3ull, 0xC77889D86039D2ADull, 0x7B378B5BEA9B0475ull, 0x6520BFA79D59AD66ull,
  0x2441490CB8A37267ull, 0xA715A66B7D5CF473ull, 0x9AE892C88334FD67ull, 0xD2FFE9AEC1D2169Aull,
  0x790B993F18B18CBBull, 0xA0D02FBCF6A7B1ADull, 0xA90833E6F151D0C1ull, 0x1AC7AFA37BD79BE0ull,
  0xD5383628B2881A24ull, 0xE5526F9D63F9F8F1ull, 0xC1F165A01A6D1F4Dull, 0x6CCEF8FF3FCFA3F2ull,
  0x2030F18325E6DF48ull, 0x289207230E3FB17Aull, 0x077B66F713A3C4B9ull, 0x9F39843CAF871754ull,
  0x512FDA0F808ACCF3ull, 0xF4D9801CD0CD1F14ull, 0x28A0C749ED323638ull, 0x94844CAFA671F01Cull,
  0xD0E261876B8ACA51ull, 0x8FC2A648A4792EA2ull, 0x8EF87282136AF5FEull, 0x5FE6A54A9FBA6B40ull,
  0xA3CC5B8FE6223D54ull, 0xA8C3C0DD651BB01Cull, 0x625E9FDD534716F3ull, 0x1AB2604083C33AC5ull,
  0xDE098853F8692F12ull, 0x4B0813891BD87624ull, 0x4AB89C4553D182ADull, 0x92C15AA2A3C27ADAull,
  0xFF2918D68191F5D9ull, 0x06363174F641C325ull, 0x667112ADA74A2059ull, 0x4BD605D6B5E53D7Dull,
  0xF2512C53663A14C8ull, 0x21857BCB1852667Cull, 0xAFBEBD0369AEE228ull, 0x7049340E48FBFD6Bull,
  0x50710E1924F46954ull, 0x869A75E04A976A3Full, 0x5A41ABBDD6373889ull, 0xA781778389B4B188ull,
  0x21A3AFCED6C925B6ull, 0x107226192EC10B42ull, 0x62A862E84EC2F9B1ull, 0x2B15E91659606DD7ull,
  0x613934D1F9EC5A42ull, 0x4DC3A96DC5361BAFull, 0xC80BBA4CB5F12903ull, 0x3E3EDAE99A7D6987ull,
  0x8F97B2D55941DCB0ull, 0x4C9787364C3E4EC1ull, 0xEF0A2D07BEA90CA7ull, 0x5FABF32C70AEEAFBull,
  0x3356A5CFA8F23BF4ull,
};
static const uint64_t VEC_2stream[81] = {
  0x3C8426E33CB41606ull, 0xFD74BE70EE73E617ull, 0xF43DE3CDD8A20486ull, 0x882FBCB37E8EA3BBull,
  0x1AA2CDD34CAA3D4Bull, 0xEE755B2BFAE07ED5ull, 0xD4E225250D92E213ull, 0xA09B49083205965Bull,
  0xD47B21724EF9EC9Eull, 0xAC888FC3858CEE11ull, 0x94F820D85736F244ull, 0x1707951CCA920932ull,
  0x8E0E45603F7877F0ull, 0x9FD2592C0E3A7212ull, 0x9A66370F3AE3D427ull, 0xD33382D2161DE2B7ull,
  0x9A35BE079DA7115Full, 0x73457C7FF58B4EC3ull, 0xBE8610BD53D7CE98ull, 0x65506DFE5CCD5371ull,
  0x286A321AF9D5D9FAull, 0xB81EF9A7EF3C536Dull, 0x2CFDB5E6825C6E86ull, 0xB2A58CBFDFDD303Aull,
  0xD26094A42B950635ull, 0xA34D666A5F02AD9Aull, 0x0151E013EBCC72E5ull, 0x9254A6EA7FCB6BB5ull,
  0x10C9361B3869DC2Bull, 0xD7EC55A060606276ull, 0xA2FF7F8BF8976FFDull, 0xB5181BB6852DCC88ull,
  0x0EE394BB6178BAFFull, 0x3A8B4B400D21B89Cull, 0xEC270461970960FDull, 0x615967FAB053877Eull,
  0xFA51BF1CFEB4714Cull, 0x29FDA8383070F375ull, 0xC3B663061BC52EDAull, 0x192BBAF1F1A57923ull,
  0x6D193B52F93C53AFull, 0x7F6F5639FE87CA1Eull, 0x69F7F9140B32EDC8ull, 0xD0F2416FB24325B6ull,
  0x62C0E37FEDD49FF3ull, 0x57866A4B809D373Dull, 0x9848D24BD935E137ull, 0xDFC905B66734D50Aull,
  0x9A938DD194A68529ull, 0x8276C44DF0625228ull, 0xA4B35D00AD67C0ABull, 0x3D9CB359842DB452ull,
  0x4241BFA8C23B267Full, 0x650FA517BEF15952ull, 0x782DE2ABD8C7B1E1ull, 0x4EAE456166CA3E15ull,
  0x40CDF3A02614E337ull, 0xAD84092C46102172ull, 0x0C68479B03F9A167ull, 0x7E1BA046749E181Cull,
  0x3F3AB41A697382C1ull, 0xC5E5DD6586EBFDC4ull, 0xFF926CD4EB02555Cull, 0x035CFE67F89E709Bull,
  0x89F06AB6464A1B9Dull, 0x8EFF58F3F7DEA758ull, 0x8B54AC657902089Full, 0xC6C4F1F9F8DA4D64ull,
  0xBDB729048AAAC93Aull, 0xEA76BA628F5E5CD6ull, 0x742159B728B8A979ull, 0x6D151CD3C720E53Dull,
  0xE97FFF9368FCDC42ull, 0xCA5B38314914FBDAull, 0xDD92C91D8B858EAEull, 0x66E5F07CF647CBF2ull,
  0xD4CF9B42F4985AFBull, 0x72AE17AC7D92F6B7ull, 0xB8206B22AB0472E1ull, 0x385876B5CFD42479ull,
  0x03294A249EBE6B26ull,
};
static const uint64_t VEC_2stream128[81] = {
  0xCD2801D3B92237D6ull, 0x10E4D47BD821546Dull, 0x9100704B9D65CD06ull, 0xD6951CB4016313EFull,
  0x24DB636F96F474DAull, 0x3F4AF7DF3C49E422ull, 0xBFF25B8AF143459Bull, 0xA157EC13538BE549ull,
  0xD3F5F52C47DBD419ull, 0x0EF3D7D735AF1575ull, 0x46B7B892823F7B1Bull, 0xEE22EA4655213289ull,
  0x56AD76F02FE929BCull, 0x9CF6CD1AC886546Eull, 0xAF45CE47AEA0B933ull, 0x535F9DC09F3996B7ull,
  0x1F0C3C01694AE128ull, 0x18495069BE0766F7ull, 0x37E5FFB3D72A4CB1ull, 0x6D6C2E9299F30709ull,
  0x4F39E693F50B41E3ull, 0xB11FC4EF0658E116ull, 0x48BFAACB78E5079Bull, 0xE1B4C89C781B3AD0ull,
  0x81D2F34888D333A1ull, 0xF6D02270D2EA449Cull, 0xC884C3C2C3CE1503ull, 0x711AE16BA157A9B9ull,
  0x1E6140C642558C9Dull, 0x35AB3D238F5DC55Bull, 0x33F07B6AEF051177ull, 0xE57336776EEFA71Cull,
  0x6D445F8318BA3752ull, 0xD4F5F6631934C988ull, 0xD5E260085727C4A2ull, 0x5B54B41EC180B4FAull,
  0x7F5D75769C15A898ull, 0xAE5A6DB850CA33C6ull, 0x038CCB8044663403ull, 0xDA16310133DC92B8ull,
  0x6A2FFB7AB2B7CE2Bull, 0xDC1832D9229BAE20ull, 0x8C62C479F5ABC9E4ull, 0x5EB7B617857C9CCBull,
  0xB79CF7D749A1E80Dull, 0xDE7FAC3798324FD3ull, 0x8178911813685D06ull, 0x6A726CBD394D4410ull,
  0x6CBE6B3280DA1113ull, 0x6829BA4410CF1148ull, 0xFA7E417EB26C5BC6ull, 0x22ED87884D6E3A49ull,
  0x15F1472D5115669Dull, 0x2EA0B4C8BF69D318ull, 0xDFE87070AA545503ull, 0x6B4C14B5F7144AB9ull,
  0xC1ED49C06126551Aull, 0x351919FC425C3899ull, 0x7B569C0FA6F1BD3Eull, 0x713AC2350844CFFDull,
  0xE9367F9A638C2FF3ull, 0x97F17D325AEA0786ull, 0xBCB907CC6CF75F91ull, 0x0CB7517DAF247719ull,
  0xBE16093CC45BE8A9ull, 0x786EEE97359AD6ABull, 0xB7AFA4F326B97E78ull, 0x2694B67FE23E502Eull,
  0x4CB492826E98E0B4ull, 0x838D119F74A416C7ull, 0x70D6A91E4E5677FDull, 0xF3E4027AD30000E6ull,
  0x9BDF692795807F77ull, 0x6A371F966E034A54ull, 0x8789CF41AE4D67EFull, 0x02688755484D60AEull,
  0xD5834B3A4BF5CE42ull, 0x9405FC61440DE25Dull, 0x35EB280A157979B6ull, 0x48D40D6A525297ACull,
  0x6A87DC185054BADAull,
};
