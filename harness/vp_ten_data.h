/* generated: pow(10, k/VP_TEN_N) and log10 of m*10^e as computed by glibc */
#if VP_TEN_N == 20
#define VP_TEN_LOW (0)
#define VP_TEN_POWERS 64
static const double vp_ten_exponent[] = {0.0, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 1.0, 1.05, 1.1, 1.15, 1.2, 1.25, 1.3, 1.35, 1.4, 1.45, 1.5, 1.55, 1.6, 1.65, 1.7, 1.75, 1.8, 1.85, 1.9, 1.95, 2.0, 2.05, 2.1, 2.15, 2.2, 2.25, 2.3, 2.35, 2.4, 2.45, 2.5, 2.55, 2.6, 2.65, 2.7, 2.75, 2.8, 2.85, 2.9, 2.95, 3.0, 3.05, 3.1, 3.15, 3.2};
static const double vp_ten_power[] = {1.0, 1.1220184543019633, 1.2589254117941673, 1.4125375446227544, 1.5848931924611136, 1.7782794100389228, 1.9952623149688795, 2.2387211385683394, 2.51188643150958, 2.8183829312644537, 3.1622776601683795, 3.548133892335755, 3.9810717055349722, 4.466835921509632, 5.011872336272722, 5.623413251903491, 6.309573444801933, 7.079457843841379, 7.943282347242816, 8.912509381337454, 10.0, 11.220184543019636, 12.589254117941675, 14.12537544622754, 15.848931924611133, 17.78279410038923, 19.952623149688797, 22.3872113856834, 25.118864315095795, 28.183829312644534, 31.622776601683793, 35.48133892335755, 39.810717055349734, 44.6683592150963, 50.11872336272722, 56.23413251903491, 63.09573444801933, 70.79457843841381, 79.43282347242814, 89.12509381337455, 100.0, 112.2018454301963, 125.89254117941675, 141.2537544622754, 158.48931924611142, 177.82794100389228, 199.52623149688787, 223.872113856834, 251.18864315095797, 281.8382931264455, 316.22776601683796, 354.8133892335753, 398.1071705534973, 446.683592150963, 501.18723362727246, 562.341325190349, 630.957344480193, 707.945784384138, 794.3282347242813, 891.2509381337459, 1000.0, 1122.018454301963, 1258.9254117941675, 1412.537544622754, 1584.893192461114};
#define VP_TEN_LOGS 12
static const double vp_ten_value[] = {1e-09, 1e-08, 1e-07, 1e-06, 1e-05, 0.0001, 0.001, 0.01, 0.1, 1.0, 10.0, 100.0};
static const double vp_ten_log[] = {-9.0, -8.0, -7.0, -6.0, -5.0, -4.0, -3.0, -2.0, -1.0, 0.0, 1.0, 2.0};
#endif
#if VP_TEN_N == 2
#define VP_TEN_LOW (-22)
#define VP_TEN_POWERS 32
static const double vp_ten_exponent[] = {-11.0, -10.5, -10.0, -9.5, -9.0, -8.5, -8.0, -7.5, -7.0, -6.5, -6.0, -5.5, -5.0, -4.5, -4.0, -3.5, -3.0, -2.5, -2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 5.0};
static const double vp_ten_power[] = {1e-11, 3.1622776601683794e-11, 1e-10, 3.1622776601683795e-10, 1e-09, 3.1622776601683795e-09, 1e-08, 3.162277660168379e-08, 1e-07, 3.162277660168379e-07, 1e-06, 3.162277660168379e-06, 1e-05, 3.1622776601683795e-05, 0.0001, 0.00031622776601683794, 0.001, 0.0031622776601683794, 0.01, 0.03162277660168379, 0.1, 0.31622776601683794, 1.0, 3.1622776601683795, 10.0, 31.622776601683793, 100.0, 316.22776601683796, 1000.0, 3162.2776601683795, 10000.0, 31622.776601683792, 100000.0};
#define VP_TEN_LOGS 36
static const double vp_ten_value[] = {1e-09, 2e-09, 5e-09, 1e-08, 2e-08, 5e-08, 1e-07, 2e-07, 5e-07, 1e-06, 2e-06, 5e-06, 1e-05, 2e-05, 5e-05, 0.0001, 0.0002, 0.0005, 0.001, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.5, 1.0, 2.0, 5.0, 10.0, 20.0, 50.0, 100.0, 200.0, 500.0};
static const double vp_ten_log[] = {-9.0, -8.698970004336019, -8.301029995663981, -8.0, -7.698970004336019, -7.301029995663981, -7.0, -6.698970004336019, -6.301029995663981, -6.0, -5.698970004336019, -5.301029995663981, -5.0, -4.698970004336019, -4.301029995663981, -4.0, -3.6989700043360187, -3.3010299956639813, -3.0, -2.6989700043360187, -2.3010299956639813, -2.0, -1.6989700043360187, -1.3010299956639813, -1.0, -0.6989700043360187, -0.3010299956639812, 0.0, 0.3010299956639812, 0.6989700043360189, 1.0, 1.3010299956639813, 1.6989700043360187, 2.0, 2.3010299956639813, 2.6989700043360187};
#endif
#if VP_TEN_N == 5
#define VP_TEN_LOW (-50)
#define VP_TEN_POWERS 70
static const double vp_ten_exponent[] = {-10.0, -9.8, -9.6, -9.4, -9.2, -9.0, -8.8, -8.6, -8.4, -8.2, -8.0, -7.8, -7.6, -7.4, -7.2, -7.0, -6.8, -6.6, -6.4, -6.2, -6.0, -5.8, -5.6, -5.4, -5.2, -5.0, -4.8, -4.6, -4.4, -4.2, -4.0, -3.8, -3.6, -3.4, -3.2, -3.0, -2.8, -2.6, -2.4, -2.2, -2.0, -1.8, -1.6, -1.4, -1.2, -1.0, -0.8, -0.6, -0.4, -0.2, 0.0, 0.2, 0.4, 0.6, 0.8, 1.0, 1.2, 1.4, 1.6, 1.8, 2.0, 2.2, 2.4, 2.6, 2.8, 3.0, 3.2, 3.4, 3.6, 3.8, 4.0};
static const double vp_ten_power[] = {1e-10, 1.584893192461111e-10, 2.511886431509582e-10, 3.9810717055349694e-10, 6.309573444801942e-10, 1e-09, 1.584893192461111e-09, 2.511886431509582e-09, 3.981071705534969e-09, 6.309573444801943e-09, 1e-08, 1.5848931924611143e-08, 2.511886431509582e-08, 3.981071705534969e-08, 6.30957344480193e-08, 1e-07, 1.584893192461114e-07, 2.5118864315095823e-07, 3.981071705534969e-07, 6.30957344480193e-07, 1e-06, 1.584893192461114e-06, 2.5118864315095823e-06, 3.981071705534969e-06, 6.30957344480193e-06, 1e-05, 1.584893192461114e-05, 2.5118864315095822e-05, 3.9810717055349695e-05, 6.309573444801929e-05, 0.0001, 0.00015848931924611142, 0.00025118864315095795, 0.00039810717055349735, 0.000630957344480193, 0.001, 0.001584893192461114, 0.0025118864315095794, 0.003981071705534973, 0.00630957344480193, 0.01, 0.015848931924611134, 0.025118864315095794, 0.039810717055349734, 0.06309573444801933, 0.1, 0.15848931924611134, 0.251188643150958, 0.3981071705534972, 0.6309573444801932, 1.0, 1.5848931924611136, 2.51188643150958, 3.9810717055349722, 6.309573444801933, 10.0, 15.848931924611133, 25.118864315095795, 39.810717055349734, 63.09573444801933, 100.0, 158.48931924611142, 251.18864315095797, 398.1071705534973, 630.957344480193, 1000.0, 1584.893192461114, 2511.88643150958, 3981.0717055349733, 6309.57344480193, 10000.0};
#define VP_TEN_LOGS 36
static const double vp_ten_value[] = {1e-09, 2e-09, 3e-09, 1e-08, 2e-08, 3e-08, 1e-07, 2e-07, 3e-07, 1e-06, 2e-06, 3e-06, 1e-05, 2e-05, 3e-05, 0.0001, 0.0002, 0.0003, 0.001, 0.002, 0.003, 0.01, 0.02, 0.03, 0.1, 0.2, 0.3, 1.0, 2.0, 3.0, 10.0, 20.0, 30.0, 100.0, 200.0, 300.0};
static const double vp_ten_log[] = {-9.0, -8.698970004336019, -8.522878745280337, -8.0, -7.698970004336019, -7.522878745280337, -7.0, -6.698970004336019, -6.522878745280337, -6.0, -5.698970004336019, -5.522878745280337, -5.0, -4.698970004336019, -4.522878745280337, -4.0, -3.6989700043360187, -3.5228787452803374, -3.0, -2.6989700043360187, -2.5228787452803374, -2.0, -1.6989700043360187, -1.5228787452803376, -1.0, -0.6989700043360187, -0.5228787452803376, 0.0, 0.3010299956639812, 0.47712125471966244, 1.0, 1.3010299956639813, 1.4771212547196624, 2.0, 2.3010299956639813, 2.4771212547196626};
#endif
#if VP_TEN_N == 102 /* 2 targets per decade, dyadic values */
#define VP_TEN_LOW (-22)
#define VP_TEN_POWERS 66
static const double vp_ten_exponent[] = {-11.0, -10.5, -10.0, -9.5, -9.0, -8.5, -8.0, -7.5, -7.0, -6.5, -6.0, -5.5, -5.0, -4.5, -4.0, -3.5, -3.0, -2.5, -2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 4.5, 5.0, 5.5, 6.0, 6.5, 7.0, 7.5, 8.0, 8.5, 9.0, 9.5, 10.0, 10.5, 11.0, 11.5, 12.0, 12.5, 13.0, 13.5, 14.0, 14.5, 15.0, 15.5, 16.0, 16.5, 17.0, 17.5, 18.0, 18.5, 19.0, 19.5, 20.0, 20.5, 21.0, 21.5, 22.0};
static const double vp_ten_power[] = {1e-11, 3.1622776601683794e-11, 1e-10, 3.1622776601683795e-10, 1e-09, 3.1622776601683795e-09, 1e-08, 3.162277660168379e-08, 1e-07, 3.162277660168379e-07, 1e-06, 3.162277660168379e-06, 1e-05, 3.1622776601683795e-05, 0.0001, 0.00031622776601683794, 0.001, 0.0031622776601683794, 0.01, 0.03162277660168379, 0.1, 0.31622776601683794, 1.0, 3.1622776601683795, 10.0, 31.622776601683793, 100.0, 316.22776601683796, 1000.0, 3162.2776601683795, 10000.0, 31622.776601683792, 100000.0, 316227.7660168379, 1000000.0, 3162277.6601683795, 10000000.0, 31622776.60168379, 100000000.0, 316227766.01683795, 1000000000.0, 3162277660.1683793, 10000000000.0, 31622776601.683792, 100000000000.0, 316227766016.83795, 1000000000000.0, 3162277660168.3794, 10000000000000.0, 31622776601683.793, 100000000000000.0, 316227766016837.94, 1000000000000000.0, 3162277660168379.5, 1e+16, 3.162277660168379e+16, 1e+17, 3.1622776601683795e+17, 1e+18, 3.1622776601683794e+18, 1e+19, 3.162277660168379e+19, 1e+20, 3.1622776601683794e+20, 1e+21, 3.1622776601683794e+21, 1e+22};
#define VP_TEN_LOGS 20
static const double vp_ten_value[] = {0.0625, 0.125, 0.25, 0.5, 1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0, 1024.0, 2048.0, 1e-09, 1e-08, 2e+21, 3e+21};
static const double vp_ten_log[] = {-1.2041199826559248, -0.9030899869919435, -0.6020599913279624, -0.3010299956639812, 0.0, 0.3010299956639812, 0.6020599913279624, 0.9030899869919435, 1.2041199826559248, 1.505149978319906, 1.806179973983887, 2.1072099696478683, 2.4082399653118496, 2.709269960975831, 3.010299956639812, 3.3113299523037933, -9.0, -8.0, 21.30102999566398, 21.477121254719663};
#endif
static const double vp_ten_20th[] = {0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 1.0, 1.05, 1.1, 1.15, 1.2, 1.25, 1.3, 1.35, 1.4, 1.45, 1.5, 1.55, 1.6, 1.65, 1.7, 1.75, 1.8, 1.85, 1.9, 1.95};
static const double vp_ten_20th_power[] = {1.1220184543019633, 1.2589254117941673, 1.4125375446227544, 1.5848931924611136, 1.7782794100389228, 1.9952623149688795, 2.2387211385683394, 2.51188643150958, 2.8183829312644537, 3.1622776601683795, 3.548133892335755, 3.9810717055349722, 4.466835921509632, 5.011872336272722, 5.623413251903491, 6.309573444801933, 7.079457843841379, 7.943282347242816, 8.912509381337454, 10.0, 11.220184543019636, 12.589254117941675, 14.12537544622754, 15.848931924611133, 17.78279410038923, 19.952623149688797, 22.3872113856834, 25.118864315095795, 28.183829312644534, 31.622776601683793, 35.48133892335755, 39.810717055349734, 44.6683592150963, 50.11872336272722, 56.23413251903491, 63.09573444801933, 70.79457843841381, 79.43282347242814, 89.12509381337455};
