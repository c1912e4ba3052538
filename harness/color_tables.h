static float ref_viridis[][3] = {{0.267004f, 0.004874f, 0.329415f},
                                               {0.268510f, 0.009605f, 0.335427f},
                                               {0.269944f, 0.014625f, 0.341379f},
                                               {0.271305f, 0.019942f, 0.347269f},
                                               {0.272594f, 0.025563f, 0.353093f},
                                               {0.273809f, 0.031497f, 0.358853f},
                                               {0.274952f, 0.037752f, 0.364543f},
                                               {0.276022f, 0.044167f, 0.370164f},
                                               {0.277018f, 0.050344f, 0.375715f},
                                               {0.277941f, 0.056324f, 0.381191f},
                                               {0.278791f, 0.062145f, 0.386592f},
                                               {0.279566f, 0.067836f, 0.391917f},
                                               {0.280267f, 0.073417f, 0.397163f},
                                               {0.280894f, 0.078907f, 0.402329f},
                                               {0.281446f, 0.084320f, 0.407414f},
                                               {0.281924f, 0.089666f, 0.412415f},
                                               {0.282327f, 0.094955f, 0.417331f},
                                               {0.282656f, 0.100196f, 0.422160f},
                                               {0.282910f, 0.105393f, 0.426902f},
                                               {0.283091f, 0.110553f, 0.431554f},
                                               {0.283197f, 0.115680f, 0.436115f},
                                               {0.283229f, 0.120777f, 0.440584f},
                                               {0.283187f, 0.125848f, 0.444960f},
                                               {0.283072f, 0.130895f, 0.449241f},
                                               {0.282884f, 0.135920f, 0.453427f},
                                               {0.282623f, 0.140926f, 0.457517f},
                                               {0.282290f, 0.145912f, 0.461510f},
                                               {0.281887f, 0.150881f, 0.465405f},
                                               {0.281412f, 0.155834f, 0.469201f},
                                               {0.280868f, 0.160771f, 0.472899f},
                                               {0.280255f, 0.165693f, 0.476498f},
                                               {0.279574f, 0.170599f, 0.479997f},
                                               {0.278826f, 0.175490f, 0.483397f},
                                               {0.278012f, 0.180367f, 0.486697f},
                                               {0.277134f, 0.185228f, 0.489898f},
                                               {0.276194f, 0.190074f, 0.493001f},
                                               {0.275191f, 0.194905f, 0.496005f},
                                               {0.274128f, 0.199721f, 0.498911f},
                                               {0.273006f, 0.204520f, 0.501721f},
                                               {0.271828f, 0.209303f, 0.504434f},
                                               {0.270595f, 0.214069f, 0.507052f},
                                               {0.269308f, 0.218818f, 0.509577f},
                                               {0.267968f, 0.223549f, 0.512008f},
                                               {0.266580f, 0.228262f, 0.514349f},
                                               {0.265145f, 0.232956f, 0.516599f},
                                               {0.263663f, 0.237631f, 0.518762f},
                                               {0.262138f, 0.242286f, 0.520837f},
                                               {0.260571f, 0.246922f, 0.522828f},
                                               {0.258965f, 0.251537f, 0.524736f},
                                               {0.257322f, 0.256130f, 0.526563f},
                                               {0.255645f, 0.260703f, 0.528312f},
                                               {0.253935f, 0.265254f, 0.529983f},
                                               {0.252194f, 0.269783f, 0.531579f},
                                               {0.250425f, 0.274290f, 0.533103f},
                                               {0.248629f, 0.278775f, 0.534556f},
                                               {0.246811f, 0.283237f, 0.535941f},
                                               {0.244972f, 0.287675f, 0.537260f},
                                               {0.243113f, 0.292092f, 0.538516f},
                                               {0.241237f, 0.296485f, 0.539709f},
                                               {0.239346f, 0.300855f, 0.540844f},
                                               {0.237441f, 0.305202f, 0.541921f},
                                               {0.235526f, 0.309527f, 0.542944f},
                                               {0.233603f, 0.313828f, 0.543914f},
                                               {0.231674f, 0.318106f, 0.544834f},
                                               {0.229739f, 0.322361f, 0.545706f},
                                               {0.227802f, 0.326594f, 0.546532f},
                                               {0.225863f, 0.330805f, 0.547314f},
                                               {0.223925f, 0.334994f, 0.548053f},
                                               {0.221989f, 0.339161f, 0.548752f},
                                               {0.220057f, 0.343307f, 0.549413f},
                                               {0.218130f, 0.347432f, 0.550038f},
                                               {0.216210f, 0.351535f, 0.550627f},
                                               {0.214298f, 0.355619f, 0.551184f},
                                               {0.212395f, 0.359683f, 0.551710f},
                                               {0.210503f, 0.363727f, 0.552206f},
                                               {0.208623f, 0.367752f, 0.552675f},
                                               {0.206756f, 0.371758f, 0.553117f},
                                               {0.204903f, 0.375746f, 0.553533f},
                                               {0.203063f, 0.379716f, 0.553925f},
                                               {0.201239f, 0.383670f, 0.554294f},
                                               {0.199430f, 0.387607f, 0.554642f},
                                               {0.197636f, 0.391528f, 0.554969f},
                                               {0.195860f, 0.395433f, 0.555276f},
                                               {0.194100f, 0.399323f, 0.555565f},
                                               {0.192357f, 0.403199f, 0.555836f},
                                               {0.190631f, 0.407061f, 0.556089f},
                                               {0.188923f, 0.410910f, 0.556326f},
                                               {0.187231f, 0.414746f, 0.556547f},
                                               {0.185556f, 0.418570f, 0.556753f},
                                               {0.183898f, 0.422383f, 0.556944f},
                                               {0.182256f, 0.426184f, 0.557120f},
                                               {0.180629f, 0.429975f, 0.557282f},
                                               {0.179019f, 0.433756f, 0.557430f},
                                               {0.177423f, 0.437527f, 0.557565f},
                                               {0.175841f, 0.441290f, 0.557685f},
                                               {0.174274f, 0.445044f, 0.557792f},
                                               {0.172719f, 0.448791f, 0.557885f},
                                               {0.171176f, 0.452530f, 0.557965f},
                                               {0.169646f, 0.456262f, 0.558030f},
                                               {0.168126f, 0.459988f, 0.558082f},
                                               {0.166617f, 0.463708f, 0.558119f},
                                               {0.165117f, 0.467423f, 0.558141f},
                                               {0.163625f, 0.471133f, 0.558148f},
                                               {0.162142f, 0.474838f, 0.558140f},
                                               {0.160665f, 0.478540f, 0.558115f},
                                               {0.159194f, 0.482237f, 0.558073f},
                                               {0.157729f, 0.485932f, 0.558013f},
                                               {0.156270f, 0.489624f, 0.557936f},
                                               {0.154815f, 0.493313f, 0.557840f},
                                               {0.153364f, 0.497000f, 0.557724f},
                                               {0.151918f, 0.500685f, 0.557587f},
                                               {0.150476f, 0.504369f, 0.557430f},
                                               {0.149039f, 0.508051f, 0.557250f},
                                               {0.147607f, 0.511733f, 0.557049f},
                                               {0.146180f, 0.515413f, 0.556823f},
                                               {0.144759f, 0.519093f, 0.556572f},
                                               {0.143343f, 0.522773f, 0.556295f},
                                               {0.141935f, 0.526453f, 0.555991f},
                                               {0.140536f, 0.530132f, 0.555659f},
                                               {0.139147f, 0.533812f, 0.555298f},
                                               {0.137770f, 0.537492f, 0.554906f},
                                               {0.136408f, 0.541173f, 0.554483f},
                                               {0.135066f, 0.544853f, 0.554029f},
                                               {0.133743f, 0.548535f, 0.553541f},
                                               {0.132444f, 0.552216f, 0.553018f},
                                               {0.131172f, 0.555899f, 0.552459f},
                                               {0.129933f, 0.559582f, 0.551864f},
                                               {0.128729f, 0.563265f, 0.551229f},
                                               {0.127568f, 0.566949f, 0.550556f},
                                               {0.126453f, 0.570633f, 0.549841f},
                                               {0.125394f, 0.574318f, 0.549086f},
                                               {0.124395f, 0.578002f, 0.548287f},
                                               {0.123463f, 0.581687f, 0.547445f},
                                               {0.122606f, 0.585371f, 0.546557f},
                                               {0.121831f, 0.589055f, 0.545623f},
                                               {0.121148f, 0.592739f, 0.544641f},
                                               {0.120565f, 0.596422f, 0.543611f},
                                               {0.120092f, 0.600104f, 0.542530f},
                                               {0.119738f, 0.603785f, 0.541400f},
                                               {0.119512f, 0.607464f, 0.540218f},
                                               {0.119423f, 0.611141f, 0.538982f},
                                               {0.119483f, 0.614817f, 0.537692f},
                                               {0.119699f, 0.618490f, 0.536347f},
                                               {0.120081f, 0.622161f, 0.534946f},
                                               {0.120638f, 0.625828f, 0.533488f},
                                               {0.121380f, 0.629492f, 0.531973f},
                                               {0.122312f, 0.633153f, 0.530398f},
                                               {0.123444f, 0.636809f, 0.528763f},
                                               {0.124780f, 0.640461f, 0.527068f},
                                               {0.126326f, 0.644107f, 0.525311f},
                                               {0.128087f, 0.647749f, 0.523491f},
                                               {0.130067f, 0.651384f, 0.521608f},
                                               {0.132268f, 0.655014f, 0.519661f},
                                               {0.134692f, 0.658636f, 0.517649f},
                                               {0.137339f, 0.662252f, 0.515571f},
                                               {0.140210f, 0.665859f, 0.513427f},
                                               {0.143303f, 0.669459f, 0.511215f},
                                               {0.146616f, 0.673050f, 0.508936f},
                                               {0.150148f, 0.676631f, 0.506589f},
                                               {0.153894f, 0.680203f, 0.504172f},
                                               {0.157851f, 0.683765f, 0.501686f},
                                               {0.162016f, 0.687316f, 0.499129f},
                                               {0.166383f, 0.690856f, 0.496502f},
                                               {0.170948f, 0.694384f, 0.493803f},
                                               {0.175707f, 0.697900f, 0.491033f},
                                               {0.180653f, 0.701402f, 0.488189f},
                                               {0.185783f, 0.704891f, 0.485273f},
                                               {0.191090f, 0.708366f, 0.482284f},
                                               {0.196571f, 0.711827f, 0.479221f},
                                               {0.202219f, 0.715272f, 0.476084f},
                                               {0.208030f, 0.718701f, 0.472873f},
                                               {0.214000f, 0.722114f, 0.469588f},
                                               {0.220124f, 0.725509f, 0.466226f},
                                               {0.226397f, 0.728888f, 0.462789f},
                                               {0.232815f, 0.732247f, 0.459277f},
                                               {0.239374f, 0.735588f, 0.455688f},
                                               {0.246070f, 0.738910f, 0.452024f},
                                               {0.252899f, 0.742211f, 0.448284f},
                                               {0.259857f, 0.745492f, 0.444467f},
                                               {0.266941f, 0.748751f, 0.440573f},
                                               {0.274149f, 0.751988f, 0.436601f},
                                               {0.281477f, 0.755203f, 0.432552f},
                                               {0.288921f, 0.758394f, 0.428426f},
                                               {0.296479f, 0.761561f, 0.424223f},
                                               {0.304148f, 0.764704f, 0.419943f},
                                               {0.311925f, 0.767822f, 0.415586f},
                                               {0.319809f, 0.770914f, 0.411152f},
                                               {0.327796f, 0.773980f, 0.406640f},
                                               {0.335885f, 0.777018f, 0.402049f},
                                               {0.344074f, 0.780029f, 0.397381f},
                                               {0.352360f, 0.783011f, 0.392636f},
                                               {0.360741f, 0.785964f, 0.387814f},
                                               {0.369214f, 0.788888f, 0.382914f},
                                               {0.377779f, 0.791781f, 0.377939f},
                                               {0.386433f, 0.794644f, 0.372886f},
                                               {0.395174f, 0.797475f, 0.367757f},
                                               {0.404001f, 0.800275f, 0.362552f},
                                               {0.412913f, 0.803041f, 0.357269f},
                                               {0.421908f, 0.805774f, 0.351910f},
                                               {0.430983f, 0.808473f, 0.346476f},
                                               {0.440137f, 0.811138f, 0.340967f},
                                               {0.449368f, 0.813768f, 0.335384f},
                                               {0.458674f, 0.816363f, 0.329727f},
                                               {0.468053f, 0.818921f, 0.323998f},
                                               {0.477504f, 0.821444f, 0.318195f},
                                               {0.487026f, 0.823929f, 0.312321f},
                                               {0.496615f, 0.826376f, 0.306377f},
                                               {0.506271f, 0.828786f, 0.300362f},
                                               {0.515992f, 0.831158f, 0.294279f},
                                               {0.525776f, 0.833491f, 0.288127f},
                                               {0.535621f, 0.835785f, 0.281908f},
                                               {0.545524f, 0.838039f, 0.275626f},
                                               {0.555484f, 0.840254f, 0.269281f},
                                               {0.565498f, 0.842430f, 0.262877f},
                                               {0.575563f, 0.844566f, 0.256415f},
                                               {0.585678f, 0.846661f, 0.249897f},
                                               {0.595839f, 0.848717f, 0.243329f},
                                               {0.606045f, 0.850733f, 0.236712f},
                                               {0.616293f, 0.852709f, 0.230052f},
                                               {0.626579f, 0.854645f, 0.223353f},
                                               {0.636902f, 0.856542f, 0.216620f},
                                               {0.647257f, 0.858400f, 0.209861f},
                                               {0.657642f, 0.860219f, 0.203082f},
                                               {0.668054f, 0.861999f, 0.196293f},
                                               {0.678489f, 0.863742f, 0.189503f},
                                               {0.688944f, 0.865448f, 0.182725f},
                                               {0.699415f, 0.867117f, 0.175971f},
                                               {0.709898f, 0.868751f, 0.169257f},
                                               {0.720391f, 0.870350f, 0.162603f},
                                               {0.730889f, 0.871916f, 0.156029f},
                                               {0.741388f, 0.873449f, 0.149561f},
                                               {0.751884f, 0.874951f, 0.143228f},
                                               {0.762373f, 0.876424f, 0.137064f},
                                               {0.772852f, 0.877868f, 0.131109f},
                                               {0.783315f, 0.879285f, 0.125405f},
                                               {0.793760f, 0.880678f, 0.120005f},
                                               {0.804182f, 0.882046f, 0.114965f},
                                               {0.814576f, 0.883393f, 0.110347f},
                                               {0.824940f, 0.884720f, 0.106217f},
                                               {0.835270f, 0.886029f, 0.102646f},
                                               {0.845561f, 0.887322f, 0.099702f},
                                               {0.855810f, 0.888601f, 0.097452f},
                                               {0.866013f, 0.889868f, 0.095953f},
                                               {0.876168f, 0.891125f, 0.095250f},
                                               {0.886271f, 0.892374f, 0.095374f},
                                               {0.896320f, 0.893616f, 0.096335f},
                                               {0.906311f, 0.894855f, 0.098125f},
                                               {0.916242f, 0.896091f, 0.100717f},
                                               {0.926106f, 0.897330f, 0.104071f},
                                               {0.935904f, 0.898570f, 0.108131f},
                                               {0.945636f, 0.899815f, 0.112838f},
                                               {0.955300f, 0.901065f, 0.118128f},
                                               {0.964894f, 0.902323f, 0.123941f},
                                               {0.974417f, 0.903590f, 0.130215f},
                                               {0.983868f, 0.904867f, 0.136897f},
                                               {0.993248f, 0.906157f, 0.143936f}};

static const int ref_viridis_size = sizeof(ref_viridis)/sizeof(ref_viridis[0]);

static float ref_plasma[][3] = {{0.050383, 0.029803, 0.527975},
                                              {0.063536, 0.028426, 0.533124},
                                              {0.075353, 0.027206, 0.538007},
                                              {0.086222, 0.026125, 0.542658},
                                              {0.096379, 0.025165, 0.547103},
                                              {0.105980, 0.024309, 0.551368},
                                              {0.115124, 0.023556, 0.555468},
                                              {0.123903, 0.022878, 0.559423},
                                              {0.132381, 0.022258, 0.563250},
                                              {0.140603, 0.021687, 0.566959},
                                              {0.148607, 0.021154, 0.570562},
                                              {0.156421, 0.020651, 0.574065},
                                              {0.164070, 0.020171, 0.577478},
                                              {0.171574, 0.019706, 0.580806},
                                              {0.178950, 0.019252, 0.584054},
                                              {0.186213, 0.018803, 0.587228},
                                              {0.193374, 0.018354, 0.590330},
                                              {0.200445, 0.017902, 0.593364},
                                              {0.207435, 0.017442, 0.596333},
                                              {0.214350, 0.016973, 0.599239},
                                              {0.221197, 0.016497, 0.602083},
                                              {0.227983, 0.016007, 0.604867},
                                              {0.234715, 0.015502, 0.607592},
                                              {0.241396, 0.014979, 0.610259},
                                              {0.248032, 0.014439, 0.612868},
                                              {0.254627, 0.013882, 0.615419},
                                              {0.261183, 0.013308, 0.617911},
                                              {0.267703, 0.012716, 0.620346},
                                              {0.274191, 0.012109, 0.622722},
                                              {0.280648, 0.011488, 0.625038},
                                              {0.287076, 0.010855, 0.627295},
                                              {0.293478, 0.010213, 0.629490},
                                              {0.299855, 0.009561, 0.631624},
                                              {0.306210, 0.008902, 0.633694},
                                              {0.312543, 0.008239, 0.635700},
                                              {0.318856, 0.007576, 0.637640},
                                              {0.325150, 0.006915, 0.639512},
                                              {0.331426, 0.006261, 0.641316},
                                              {0.337683, 0.005618, 0.643049},
                                              {0.343925, 0.004991, 0.644710},
                                              {0.350150, 0.004382, 0.646298},
                                              {0.356359, 0.003798, 0.647810},
                                              {0.362553, 0.003243, 0.649245},
                                              {0.368733, 0.002724, 0.650601},
                                              {0.374897, 0.002245, 0.651876},
                                              {0.381047, 0.001814, 0.653068},
                                              {0.387183, 0.001434, 0.654177},
                                              {0.393304, 0.001114, 0.655199},
                                              {0.399411, 0.000859, 0.656133},
                                              {0.405503, 0.000678, 0.656977},
                                              {0.411580, 0.000577, 0.657730},
                                              {0.417642, 0.000564, 0.658390},
                                              {0.423689, 0.000646, 0.658956},
                                              {0.429719, 0.000831, 0.659425},
                                              {0.435734, 0.001127, 0.659797},
                                              {0.441732, 0.001540, 0.660069},
                                              {0.447714, 0.002080, 0.660240},
                                              {0.453677, 0.002755, 0.660310},
                                              {0.459623, 0.003574, 0.660277},
                                              {0.465550, 0.004545, 0.660139},
                                              {0.471457, 0.005678, 0.659897},
                                              {0.477344, 0.006980, 0.659549},
                                              {0.483210, 0.008460, 0.659095},
                                              {0.489055, 0.010127, 0.658534},
                                              {0.494877, 0.011990, 0.657865},
                                              {0.500678, 0.014055, 0.657088},
                                              {0.506454, 0.016333, 0.656202},
                                              {0.512206, 0.018833, 0.655209},
                                              {0.517933, 0.021563, 0.654109},
                                              {0.523633, 0.024532, 0.652901},
                                              {0.529306, 0.027747, 0.651586},
                                              {0.534952, 0.031217, 0.650165},
                                              {0.540570, 0.034950, 0.648640},
                                              {0.546157, 0.038954, 0.647010},
                                              {0.551715, 0.043136, 0.645277},
                                              {0.557243, 0.047331, 0.643443},
                                              {0.562738, 0.051545, 0.641509},
                                              {0.568201, 0.055778, 0.639477},
                                              {0.573632, 0.060028, 0.637349},
                                              {0.579029, 0.064296, 0.635126},
                                              {0.584391, 0.068579, 0.632812},
                                              {0.589719, 0.072878, 0.630408},
                                              {0.595011, 0.077190, 0.627917},
                                              {0.600266, 0.081516, 0.625342},
                                              {0.605485, 0.085854, 0.622686},
                                              {0.610667, 0.090204, 0.619951},
                                              {0.615812, 0.094564, 0.617140},
                                              {0.620919, 0.098934, 0.614257},
                                              {0.625987, 0.103312, 0.611305},
                                              {0.631017, 0.107699, 0.608287},
                                              {0.636008, 0.112092, 0.605205},
                                              {0.640959, 0.116492, 0.602065},
                                              {0.645872, 0.120898, 0.598867},
                                              {0.650746, 0.125309, 0.595617},
                                              {0.655580, 0.129725, 0.592317},
                                              {0.660374, 0.134144, 0.588971},
                                              {0.665129, 0.138566, 0.585582},
                                              {0.669845, 0.142992, 0.582154},
                                              {0.674522, 0.147419, 0.578688},
                                              {0.679160, 0.151848, 0.575189},
                                              {0.683758, 0.156278, 0.571660},
                                              {0.688318, 0.160709, 0.568103},
                                              {0.692840, 0.165141, 0.564522},
                                              {0.697324, 0.169573, 0.560919},
                                              {0.701769, 0.174005, 0.557296},
                                              {0.706178, 0.178437, 0.553657},
                                              {0.710549, 0.182868, 0.550004},
                                              {0.714883, 0.187299, 0.546338},
                                              {0.719181, 0.191729, 0.542663},
                                              {0.723444, 0.196158, 0.538981},
                                              {0.727670, 0.200586, 0.535293},
                                              {0.731862, 0.205013, 0.531601},
                                              {0.736019, 0.209439, 0.527908},
                                              {0.740143, 0.213864, 0.524216},
                                              {0.744232, 0.218288, 0.520524},
                                              {0.748289, 0.222711, 0.516834},
                                              {0.752312, 0.227133, 0.513149},
                                              {0.756304, 0.231555, 0.509468},
                                              {0.760264, 0.235976, 0.505794},
                                              {0.764193, 0.240396, 0.502126},
                                              {0.768090, 0.244817, 0.498465},
                                              {0.771958, 0.249237, 0.494813},
                                              {0.775796, 0.253658, 0.491171},
                                              {0.779604, 0.258078, 0.487539},
                                              {0.783383, 0.262500, 0.483918},
                                              {0.787133, 0.266922, 0.480307},
                                              {0.790855, 0.271345, 0.476706},
                                              {0.794549, 0.275770, 0.473117},
                                              {0.798216, 0.280197, 0.469538},
                                              {0.801855, 0.284626, 0.465971},
                                              {0.805467, 0.289057, 0.462415},
                                              {0.809052, 0.293491, 0.458870},
                                              {0.812612, 0.297928, 0.455338},
                                              {0.816144, 0.302368, 0.451816},
                                              {0.819651, 0.306812, 0.448306},
                                              {0.823132, 0.311261, 0.444806},
                                              {0.826588, 0.315714, 0.441316},
                                              {0.830018, 0.320172, 0.437836},
                                              {0.833422, 0.324635, 0.434366},
                                              {0.836801, 0.329105, 0.430905},
                                              {0.840155, 0.333580, 0.427455},
                                              {0.843484, 0.338062, 0.424013},
                                              {0.846788, 0.342551, 0.420579},
                                              {0.850066, 0.347048, 0.417153},
                                              {0.853319, 0.351553, 0.413734},
                                              {0.856547, 0.356066, 0.410322},
                                              {0.859750, 0.360588, 0.406917},
                                              {0.862927, 0.365119, 0.403519},
                                              {0.866078, 0.369660, 0.400126},
                                              {0.869203, 0.374212, 0.396738},
                                              {0.872303, 0.378774, 0.393355},
                                              {0.875376, 0.383347, 0.389976},
                                              {0.878423, 0.387932, 0.386600},
                                              {0.881443, 0.392529, 0.383229},
                                              {0.884436, 0.397139, 0.379860},
                                              {0.887402, 0.401762, 0.376494},
                                              {0.890340, 0.406398, 0.373130},
                                              {0.893250, 0.411048, 0.369768},
                                              {0.896131, 0.415712, 0.366407},
                                              {0.898984, 0.420392, 0.363047},
                                              {0.901807, 0.425087, 0.359688},
                                              {0.904601, 0.429797, 0.356329},
                                              {0.907365, 0.434524, 0.352970},
                                              {0.910098, 0.439268, 0.349610},
                                              {0.912800, 0.444029, 0.346251},
                                              {0.915471, 0.448807, 0.342890},
                                              {0.918109, 0.453603, 0.339529},
                                              {0.920714, 0.458417, 0.336166},
                                              {0.923287, 0.463251, 0.332801},
                                              {0.925825, 0.468103, 0.329435},
                                              {0.928329, 0.472975, 0.326067},
                                              {0.930798, 0.477867, 0.322697},
                                              {0.933232, 0.482780, 0.319325},
                                              {0.935630, 0.487712, 0.315952},
                                              {0.937990, 0.492667, 0.312575},
                                              {0.940313, 0.497642, 0.309197},
                                              {0.942598, 0.502639, 0.305816},
                                              {0.944844, 0.507658, 0.302433},
                                              {0.947051, 0.512699, 0.299049},
                                              {0.949217, 0.517763, 0.295662},
                                              {0.951344, 0.522850, 0.292275},
                                              {0.953428, 0.527960, 0.288883},
                                              {0.955470, 0.533093, 0.285490},
                                              {0.957469, 0.538250, 0.282096},
                                              {0.959424, 0.543431, 0.278701},
                                              {0.961336, 0.548636, 0.275305},
                                              {0.963203, 0.553865, 0.271909},
                                              {0.965024, 0.559118, 0.268513},
                                              {0.966798, 0.564396, 0.265118},
                                              {0.968526, 0.569700, 0.261721},
                                              {0.970205, 0.575028, 0.258325},
                                              {0.971835, 0.580382, 0.254931},
                                              {0.973416, 0.585761, 0.251540},
                                              {0.974947, 0.591165, 0.248151},
                                              {0.976428, 0.596595, 0.244767},
                                              {0.977856, 0.602051, 0.241387},
                                              {0.979233, 0.607532, 0.238013},
                                              {0.980556, 0.613039, 0.234646},
                                              {0.981826, 0.618572, 0.231287},
                                              {0.983041, 0.624131, 0.227937},
                                              {0.984199, 0.629718, 0.224595},
                                              {0.985301, 0.635330, 0.221265},
                                              {0.986345, 0.640969, 0.217948},
                                              {0.987332, 0.646633, 0.214648},
                                              {0.988260, 0.652325, 0.211364},
                                              {0.989128, 0.658043, 0.208100},
                                              {0.989935, 0.663787, 0.204859},
                                              {0.990681, 0.669558, 0.201642},
                                              {0.991365, 0.675355, 0.198453},
                                              {0.991985, 0.681179, 0.195295},
                                              {0.992541, 0.687030, 0.192170},
                                              {0.993032, 0.692907, 0.189084},
                                              {0.993456, 0.698810, 0.186041},
                                              {0.993814, 0.704741, 0.183043},
                                              {0.994103, 0.710698, 0.180097},
                                              {0.994324, 0.716681, 0.177208},
                                              {0.994474, 0.722691, 0.174381},
                                              {0.994553, 0.728728, 0.171622},
                                              {0.994561, 0.734791, 0.168938},
                                              {0.994495, 0.740880, 0.166335},
                                              {0.994355, 0.746995, 0.163821},
                                              {0.994141, 0.753137, 0.161404},
                                              {0.993851, 0.759304, 0.159092},
                                              {0.993482, 0.765499, 0.156891},
                                              {0.993033, 0.771720, 0.154808},
                                              {0.992505, 0.777967, 0.152855},
                                              {0.991897, 0.784239, 0.151042},
                                              {0.991209, 0.790537, 0.149377},
                                              {0.990439, 0.796859, 0.147870},
                                              {0.989587, 0.803205, 0.146529},
                                              {0.988648, 0.809579, 0.145357},
                                              {0.987621, 0.815978, 0.144363},
                                              {0.986509, 0.822401, 0.143557},
                                              {0.985314, 0.828846, 0.142945},
                                              {0.984031, 0.835315, 0.142528},
                                              {0.982653, 0.841812, 0.142303},
                                              {0.981190, 0.848329, 0.142279},
                                              {0.979644, 0.854866, 0.142453},
                                              {0.977995, 0.861432, 0.142808},
                                              {0.976265, 0.868016, 0.143351},
                                              {0.974443, 0.874622, 0.144061},
                                              {0.972530, 0.881250, 0.144923},
                                              {0.970533, 0.887896, 0.145919},
                                              {0.968443, 0.894564, 0.147014},
                                              {0.966271, 0.901249, 0.148180},
                                              {0.964021, 0.907950, 0.149370},
                                              {0.961681, 0.914672, 0.150520},
                                              {0.959276, 0.921407, 0.151566},
                                              {0.956808, 0.928152, 0.152409},
                                              {0.954287, 0.934908, 0.152921},
                                              {0.951726, 0.941671, 0.152925},
                                              {0.949151, 0.948435, 0.152178},
                                              {0.946602, 0.955190, 0.150328},
                                              {0.944152, 0.961916, 0.146861},
                                              {0.941896, 0.968590, 0.140956},
                                              {0.940015, 0.975158, 0.131326}};

static const int ref_plasma_size = sizeof(ref_plasma)/sizeof(ref_plasma[0]);

static float ref_cubehelix[][3] = {{0.0, 0.0, 0.0},
                                                 {0.008532088468472343, 0.002709716096360883, 0.007651331072984423},
                                                 {0.01676713710657729, 0.005504352066236669, 0.015657290631000735},
                                                 {0.024686685382364147, 0.008397866578231182, 0.023993356035807642},
                                                 {0.032273943746172054, 0.011403599858325703, 0.03263376453507514},
                                                 {0.039513841394597925, 0.014534228058981021, 0.041551627745687554},
                                                 {0.04639306739438625, 0.01780172046417524, 0.05071904903537477},
                                                 {0.05290010508688307, 0.02121729964978902, 0.06010724337861824},
                                                 {0.059025259716228545, 0.024791404708151513, 0.06968665925817169},
                                                 {0.06476067924701054, 0.02853365763469577, 0.07942710218031795},
                                                 {0.07010036835959504, 0.032452832963575706, 0.08929785937015332},
                                                 {0.07504019563371961, 0.03655683072780523, 0.09926782521274705},
                                                 {0.0795778939531146, 0.040852652808028564, 0.10930562700695778},
                                                 {0.08371305418583713, 0.045346382722455975, 0.11937975060098913},
                                                 {0.08744711221659711, 0.05004316889883832, 0.12945866548241827},
                                                 {0.09078332942856028, 0.054947211457642225, 0.13951094890041554},
                                                 {0.09372676675286475, 0.0600617525238632, 0.14950540860416173},
                                                 {0.09628425242432509, 0.0653890700732122, 0.1594112037890431},
                                                 {0.09846434360146122, 0.0709304753067688, 0.16919796385102245},
                                                 {0.10027728202802043, 0.0766863135366461, 0.17883590455962095},
                                                 {0.10173494393150478, 0.0826559685537949, 0.18829594127115468},
                                                 {0.10285078437182055, 0.08883787043782232, 0.1975497988162167},
                                                 {0.10363977626997854, 0.095229506757646, 0.20657011770882927},
                                                 {0.10411834436274973, 0.10182743710098288, 0.21533055633916734},
                                                 {0.10430429434427121, 0.10862731086011539, 0.22380588882722346},
                                                 {0.1042167374697631, 0.11562388819111577, 0.23197209823118686},
                                                 {0.10387601090971833, 0.12281106405377434, 0.23980646482159557},
                                                 {0.10330359415512716, 0.1301818952298986, 0.2472876491504287},
                                                 {0.10252202178546535, 0.1377286302084532, 0.25439576966317384},
                                                 {0.1015547929212798, 0.14544274181722536, 0.26111247462147347},
                                                 {0.10042627769222022, 0.1533149624723501, 0.26742100812415354},
                                                 {0.09916162105927076, 0.16133532190913694, 0.27330627003520835},
                                                 {0.0977866443367087, 0.16949318725023235, 0.2787548696485814},
                                                 {0.0963277447649459, 0.177777305260243, 0.2837551729412828},
                                                 {0.09481179348987942, 0.1861758466295602, 0.28829734328844103},
                                                 {0.09326603230768063, 0.19467645212427864, 0.29237337553623793},
                                                 {0.09171796953608702, 0.2032662804338109, 0.2959771233512394},
                                                 {0.0901952753742211, 0.21193205754307515, 0.29910431978735197},
                                                 {0.08872567711275177, 0.22066012745199134, 0.30175259103442154},
                                                 {0.08733685455484422, 0.22943650406146918, 0.30392146333528003},
                                                 {0.08605633600581403, 0.23824692404212, 0.30561236308077167},
                                                 {0.08491139518573997, 0.24707690049957742, 0.3068286101148711},
                                                 {0.08392894941449217, 0.25591177724857883, 0.3075754043043762},
                                                 {0.08313545941274386, 0.26473678350683627, 0.3078598054497555},
                                                 {0.08255683105555114, 0.27353708881922084, 0.3076907066354711},
                                                 {0.0822183194070587, 0.28229785802288987, 0.3070788011394309},
                                                 {0.08214443535583016, 0.29100430606470573, 0.3060365430420739},
                                                 {0.08235885516025321, 0.29964175248361713, 0.30457810169589616},
                                                 {0.08288433320246336, 0.30819567537259873, 0.3027193102359309},
                                                 {0.08374261823730664, 0.3166517646372577, 0.30047760833072584},
                                                 {0.08495437341005802, 0.3249959743713122, 0.2978719793916782},
                                                 {0.08653910030297898, 0.33321457417281014, 0.29492288247611975},
                                                 {0.0885150672563727, 0.3412941992291757, 0.29165217913625163},
                                                 {0.09089924219463472, 0.34922189900393114, 0.2880830554818506},
                                                 {0.09370723017194463, 0.3569851843632228, 0.2842399397395695},
                                                 {0.09695321583575892, 0.36457207298606664, 0.28014841560558024},
                                                 {0.10064991098919387, 0.37197113290850015, 0.2758351317012252},
                                                 {0.10480850741579442, 0.37917152405856186, 0.27132770745321144},
                                                 {0.10943863511211832, 0.3861630376461931, 0.2666546357306649},
                                                 {0.11454832605509413, 0.3929361332797471, 0.26184518258103784},
                                                 {0.12014398361228312, 0.39948197368877186, 0.2569292844153911},
                                                 {0.12623035768406418, 0.40579245694108024, 0.2519374430009403},
                                                 {0.1328105256474155, 0.41186024605079896, 0.24690061862494528},
                                                 {0.13988587915145917, 0.4176787958830843, 0.24185012179899595},
                                                 {0.14745611679531953, 0.42324237727045677, 0.23681750387653244},
                                                 {0.15551924269919196, 0.42854609826523044, 0.2318344469589774},
                                                 {0.16407157095988237, 0.4335859224622449, 0.22693265346719496},
                                                 {0.17310773596252593, 0.43835868433603475, 0.2221437357550819},
                                                 {0.18262070850078518, 0.44286210154664657, 0.21749910614098086},
                                                 {0.19260181763862533, 0.4470947841785166, 0.21302986773025723},
                                                 {0.20304077822782732, 0.45105624088710894, 0.20876670639884273},
                                                 {0.21392572397678883, 0.4547468819383646, 0.2047397843028007},
                                                 {0.22524324594793563, 0.4581680191363793, 0.20097863527306292},
                                                 {0.23697843634327723, 0.4613218626450919, 0.1975120624474133},
                                                 {0.24911493742035437, 0.46421151472008465, 0.19436803848360212},
                                                 {0.2616349953640786, 0.46684096037684, 0.1915736086881809},
                                                 {0.2745195189238314, 0.4692150550319399, 0.1891547973852801},
                                                 {0.2877481426097019, 0.4713395091636901, 0.1871365178381585},
                                                 {0.3012992942269528, 0.47322087004848223, 0.1855424860239611},
                                                 {0.3151502665137685, 0.4748665006388331, 0.18439513854877695},
                                                 {0.32927729263408284, 0.4762845556584382, 0.1837155549758328},
                                                 {0.34365562526486715, 0.4774839549987069, 0.18352338482453964},
                                                 {0.3582596190057001, 0.4784743545100983, 0.18383677948218047},
                                                 {0.37306281582779516, 0.4792661142900977, 0.1846723292533314},
                                                 {0.3880380332699446, 0.4798702645778624, 0.186045005754709},
                                                 {0.40315745508009193, 0.48029846937337617, 0.18796810984508494},
                                                 {0.4183927239934854, 0.48056298790637325, 0.19045322526126407},
                                                 {0.43371503633162695, 0.48067663408729777, 0.19351017811194668},
                                                 {0.4490952381005254, 0.48065273407912334, 0.1971470023616422},
                                                 {0.4645039222621062, 0.4805050821349693, 0.20136991141675306},
                                                 {0.4799115268490499, 0.4802478948520716, 0.20618327590553726},
                                                 {0.495288433590817, 0.479895763997801, 0.2115896077229891},
                                                 {0.5106050667171946, 0.4794636080680391, 0.21758955039077704},
                                                 {0.5258319916053612, 0.4789666227423182, 0.22418187576134688},
                                                 {0.5409400129372152, 0.4784202304036847, 0.2313634870741776},
                                                 {0.5559002720355479, 0.4778400288942556, 0.2391294283510531},
                                                 {0.5706843430505545, 0.4772417396798808, 0.2474729000961373},
                                                 {0.5852643276721554, 0.4766411555992102, 0.2563852812456945},
                                                 {0.5996129480486359, 0.4760540883737712, 0.26585615729153367},
                                                 {0.6137036375981918, 0.47549631605639764, 0.27587335448175554},
                                                 {0.6275106294070507, 0.47498353059550974, 0.28642297998219124},
                                                 {0.6410090419159371, 0.47453128569231895, 0.29748946786213015},
                                                 {0.6541749616057052, 0.47415494512703665, 0.30905563074857856},
                                                 {0.6669855224029603, 0.4738696317285915, 0.3211027169744506},
                                                 {0.6794189815374019, 0.4736901771602226, 0.33361047302782254},
                                                 {0.6914547915944033, 0.4736310726906115, 0.3465572110917351},
                                                 {0.7030736685189627, 0.47370642111696126, 0.3599198814470702},
                                                 {0.7142576553405767, 0.47392989000263563, 0.3736741494948048},
                                                 {0.7249901814027584, 0.47431466638764164, 0.3877944771385118},
                                                 {0.7352561168958026, 0.4748734131253921, 0.4022542082533849},
                                                 {0.7450418225069438, 0.4756182269938406, 0.41702565795435986},
                                                 {0.7543351940182034, 0.47656059872324685, 0.43208020536312053},
                                                 {0.7631257016989441, 0.4777113750765324, 0.44738838956198057},
                                                 {0.7714044243573734, 0.4790807231114411, 0.46292000841182646},
                                                 {0.7791640779329144, 0.48067809674654705, 0.47864421990156375},
                                                 {0.7863990385294461, 0.4825122057455779, 0.4945296456878251},
                                                 {0.7931053598078258, 0.48459098722656924, 0.5105444764761302},
                                                 {0.7992807846748171, 0.48692157979405604, 0.5266565788882487},
                                                 {0.8049247512244604, 0.4895103003838718, 0.5428336034552175},
                                                 {0.8100383929070205, 0.49236262390118835, 0.5590430933713585},
                                                 {0.8146245329198283, 0.49548316572322215, 0.5752525936416857},
                                                 {0.8186876728335679, 0.4988756671285739, 0.5914297602533636},
                                                 {0.8222339754867737, 0.5025429837055077, 0.6075424690013254},
                                                 {0.825271242200428, 0.5064870767816179, 0.6235589235988296},
                                                 {0.8278088843835443, 0.5107090079073358, 0.6394477627055941},
                                                 {0.8298578896194023, 0.5152089364155976, 0.6551781655092143},
                                                 {0.8314307823406284, 0.5199861200697892, 0.6707199554998312},
                                                 {0.8325415792195129, 0.5250389188018071, 0.6860437020834502},
                                                 {0.8332057394177796, 0.5303648015317928, 0.7011208196859153},
                                                 {0.8334401098574034, 0.5359603560508025, 0.7159236640072891},
                                                 {0.8332628656909606, 0.5418213019374452, 0.7304256250952594},
                                                 {0.8326934461663409, 0.547942506469345, 0.7446012169161631},
                                                 {0.8317524860963794, 0.55431800348023, 0.7584261631132485},
                                                 {0.8304617431590642, 0.56094101510353, 0.771877478653865},
                                                 {0.8288440212683463, 0.5678039763336091, 0.7849335470803358},
                                                 {0.8269230902692234, 0.5748985623262228, 0.797574193093296},
                                                 {0.8247236022235973, 0.5822157183504649, 0.8097807502112113},
                                                 {0.8222710045654161, 0.5897456922954285, 0.8215361232656079},
                                                 {0.8195914504147327, 0.59747806962604, 0.8328248455081697},
                                                 {0.8167117063505185, 0.6054018106740972, 0.8436331301232713},
                                                 {0.8136590579513396, 0.6135052901424456, 0.8539489159576239},
                                                 {0.8104612134212743, 0.6217763386925255, 0.8637619072975001},
                                                 {0.8071462056257251, 0.6302022864782051, 0.8730636075433912},
                                                 {0.8037422928680125, 0.6387700084819306, 0.8818473466518699},
                                                 {0.8002778587428062, 0.6474659715027891, 0.8901083022348599},
                                                 {0.7967813114065593, 0.6562762826401134, 0.8978435142273249},
                                                 {0.793280982608098, 0.6651867391107782, 0.9050518930555915},
                                                 {0.7898050268244358, 0.6741828792333702, 0.9117342212599758},
                                                 {0.7863813208476395, 0.6832500344079783, 0.9178931485470903},
                                                 {0.7830373641682528, 0.6923733819164448, 0.9235331802690374},
                                                 {0.7798001804993064, 0.7015379983645791, 0.9286606593486332},
                                                 {0.7766962207823553, 0.710728913585061, 0.9332837416917383},
                                                 {0.7737512680132784, 0.7199311648175669, 0.9374123651496629},
                                                 {0.7709903442207565, 0.7291298509810437, 0.9410582121163693},
                                                 {0.7684376199244235, 0.7383101868520445, 0.944234665866762},
                                                 {0.7661163263926838, 0.7474575569626324, 0.9469567607636562},
                                                 {0.7640486710121218, 0.7565575690315467, 0.9492411264819871},
                                                 {0.7622557560713069, 0.7655961067431337, 0.951105926419388},
                                                 {0.7607575012516805, 0.7745593816899374, 0.9525707904823745},
                                                 {0.7595725701070641, 0.7834339842968637, 0.9536567424569391},
                                                 {0.7587183008012618, 0.7922069335474338, 0.9543861221913403},
                                                 {0.7582106413602082, 0.8008657253358422, 0.9547825028371866},
                                                 {0.7580640896812203, 0.8093983792723233, 0.9548706034125164},
                                                 {0.758291638527159, 0.8177934837736902, 0.9546761969673997},
                                                 {0.7589047257177617, 0.8260402392758368, 0.9542260146485723},
                                                 {0.7599131897140876, 0.8341284994104741, 0.9535476459747202},
                                                 {0.761325230775008, 0.8420488099943791, 0.9526694356481918},
                                                 {0.7631473778469797, 0.8497924456859798, 0.9516203772420916},
                                                 {0.7653844613300602, 0.8573514441711245, 0.9504300041138505},
                                                 {0.7680395918442792, 0.8647186377474064, 0.9491282779074351},
                                                 {0.7711141451011425, 0.8718876821843933, 0.9477454750163035},
                                                 {0.7746077529652772, 0.8788530827455198, 0.9463120713880128},
                                                 {0.778518300771068, 0.885610217266234, 0.9448586260589955},
                                                 {0.782841930938682, 0.8921553561921975, 0.9434156638144124},
                                                 {0.7875730529131505, 0.8984856794909157, 0.9420135573731432},
                                                 {0.7927043594292817, 0.9045992903600747, 0.9406824095018692},
                                                 {0.7982268490841458, 0.9104952256660734, 0.9394519354648027},
                                                 {0.8041298551777867, 0.9161734630567113, 0.9383513462169288},
                                                 {0.810401080761745, 0.9216349247027102, 0.9374092327486325},
                                                 {0.8170266398139637, 0.9268814776336761, 0.9366534519882606},
                                                 {0.8239911044377953, 0.9319159306452005, 0.9361110146665487},
                                                 {0.8312775579621686, 0.9367420277650415, 0.9358079755428894},
                                                 {0.8388676537995928, 0.9413644382776697, 0.9357693263881637},
                                                 {0.8467416798986332, 0.9457887433178749, 0.9360188921123006},
                                                 {0.8548786286078504, 0.9500214190555836, 0.9365792304168812},
                                                 {0.8632562717490216, 0.954069816505484, 0.9374715353439865},
                                                 {0.8718512406788173, 0.9579421380064692, 0.9387155450821264},
                                                 {0.8806391111000493, 0.9616474104272518, 0.9403294543784885},
                                                 {0.8895944923662078, 0.9651954551657329, 0.9423298318939713},
                                                 {0.8986911210063018, 0.9685968550208027, 0.9447315428235106},
                                                 {0.9079019581810929, 0.9718629180261565, 0.9475476770891387},
                                                 {0.9171992907666977, 0.9750056383464062, 0.9507894833970651},
                                                 {0.926554835747294, 0.9780376543462186, 0.954466309432859},
                                                 {0.9359398475853475, 0.9809722039533699, 0.958585548450632},
                                                 {0.9453252282254224, 0.9838230774464578, 0.9631525924929815},
                                                 {0.9546816393763042, 0.9866045678075106, 0.9681707924584293},
                                                 {0.9639796167058747, 0.9893314187888488, 0.9736414252122391},
                                                 {0.9731896855739884, 0.9920187708522633, 0.979563667914859},
                                                 {0.9822824779205392, 0.994682105146838, 0.985934579719903},
                                                 {0.9912288499189987, 0.9973371856995398, 0.9927490909705896},
                                                 {1.0, 1.0, 1.0}};

static const int ref_cubehelix_size = sizeof(ref_cubehelix)/sizeof(ref_cubehelix[0]);

static float ref_magma[][3] = {{0.001462, 0.000466, 0.013866},
                                             {0.002258, 0.001295, 0.018331},
                                             {0.003279, 0.002305, 0.023708},
                                             {0.004512, 0.003490, 0.029965},
                                             {0.005950, 0.004843, 0.037130},
                                             {0.007588, 0.006356, 0.044973},
                                             {0.009426, 0.008022, 0.052844},
                                             {0.011465, 0.009828, 0.060750},
                                             {0.013708, 0.011771, 0.068667},
                                             {0.016156, 0.013840, 0.076603},
                                             {0.018815, 0.016026, 0.084584},
                                             {0.021692, 0.018320, 0.092610},
                                             {0.024792, 0.020715, 0.100676},
                                             {0.028123, 0.023201, 0.108787},
                                             {0.031696, 0.025765, 0.116965},
                                             {0.035520, 0.028397, 0.125209},
                                             {0.039608, 0.031090, 0.133515},
                                             {0.043830, 0.033830, 0.141886},
                                             {0.048062, 0.036607, 0.150327},
                                             {0.052320, 0.039407, 0.158841},
                                             {0.056615, 0.042160, 0.167446},
                                             {0.060949, 0.044794, 0.176129},
                                             {0.065330, 0.047318, 0.184892},
                                             {0.069764, 0.049726, 0.193735},
                                             {0.074257, 0.052017, 0.202660},
                                             {0.078815, 0.054184, 0.211667},
                                             {0.083446, 0.056225, 0.220755},
                                             {0.088155, 0.058133, 0.229922},
                                             {0.092949, 0.059904, 0.239164},
                                             {0.097833, 0.061531, 0.248477},
                                             {0.102815, 0.063010, 0.257854},
                                             {0.107899, 0.064335, 0.267289},
                                             {0.113094, 0.065492, 0.276784},
                                             {0.118405, 0.066479, 0.286321},
                                             {0.123833, 0.067295, 0.295879},
                                             {0.129380, 0.067935, 0.305443},
                                             {0.135053, 0.068391, 0.315000},
                                             {0.140858, 0.068654, 0.324538},
                                             {0.146785, 0.068738, 0.334011},
                                             {0.152839, 0.068637, 0.343404},
                                             {0.159018, 0.068354, 0.352688},
                                             {0.165308, 0.067911, 0.361816},
                                             {0.171713, 0.067305, 0.370771},
                                             {0.178212, 0.066576, 0.379497},
                                             {0.184801, 0.065732, 0.387973},
                                             {0.191460, 0.064818, 0.396152},
                                             {0.198177, 0.063862, 0.404009},
                                             {0.204935, 0.062907, 0.411514},
                                             {0.211718, 0.061992, 0.418647},
                                             {0.218512, 0.061158, 0.425392},
                                             {0.225302, 0.060445, 0.431742},
                                             {0.232077, 0.059889, 0.437695},
                                             {0.238826, 0.059517, 0.443256},
                                             {0.245543, 0.059352, 0.448436},
                                             {0.252220, 0.059415, 0.453248},
                                             {0.258857, 0.059706, 0.457710},
                                             {0.265447, 0.060237, 0.461840},
                                             {0.271994, 0.060994, 0.465660},
                                             {0.278493, 0.061978, 0.469190},
                                             {0.284951, 0.063168, 0.472451},
                                             {0.291366, 0.064553, 0.475462},
                                             {0.297740, 0.066117, 0.478243},
                                             {0.304081, 0.067835, 0.480812},
                                             {0.310382, 0.069702, 0.483186},
                                             {0.316654, 0.071690, 0.485380},
                                             {0.322899, 0.073782, 0.487408},
                                             {0.329114, 0.075972, 0.489287},
                                             {0.335308, 0.078236, 0.491024},
                                             {0.341482, 0.080564, 0.492631},
                                             {0.347636, 0.082946, 0.494121},
                                             {0.353773, 0.085373, 0.495501},
                                             {0.359898, 0.087831, 0.496778},
                                             {0.366012, 0.090314, 0.497960},
                                             {0.372116, 0.092816, 0.499053},
                                             {0.378211, 0.095332, 0.500067},
                                             {0.384299, 0.097855, 0.501002},
                                             {0.390384, 0.100379, 0.501864},
                                             {0.396467, 0.102902, 0.502658},
                                             {0.402548, 0.105420, 0.503386},
                                             {0.408629, 0.107930, 0.504052},
                                             {0.414709, 0.110431, 0.504662},
                                             {0.420791, 0.112920, 0.505215},
                                             {0.426877, 0.115395, 0.505714},
                                             {0.432967, 0.117855, 0.506160},
                                             {0.439062, 0.120298, 0.506555},
                                             {0.445163, 0.122724, 0.506901},
                                             {0.451271, 0.125132, 0.507198},
                                             {0.457386, 0.127522, 0.507448},
                                             {0.463508, 0.129893, 0.507652},
                                             {0.469640, 0.132245, 0.507809},
                                             {0.475780, 0.134577, 0.507921},
                                             {0.481929, 0.136891, 0.507989},
                                             {0.488088, 0.139186, 0.508011},
                                             {0.494258, 0.141462, 0.507988},
                                             {0.500438, 0.143719, 0.507920},
                                             {0.506629, 0.145958, 0.507806},
                                             {0.512831, 0.148179, 0.507648},
                                             {0.519045, 0.150383, 0.507443},
                                             {0.525270, 0.152569, 0.507192},
                                             {0.531507, 0.154739, 0.506895},
                                             {0.537755, 0.156894, 0.506551},
                                             {0.544015, 0.159033, 0.506159},
                                             {0.550287, 0.161158, 0.505719},
                                             {0.556571, 0.163269, 0.505230},
                                             {0.562866, 0.165368, 0.504692},
                                             {0.569172, 0.167454, 0.504105},
                                             {0.575490, 0.169530, 0.503466},
                                             {0.581819, 0.171596, 0.502777},
                                             {0.588158, 0.173652, 0.502035},
                                             {0.594508, 0.175701, 0.501241},
                                             {0.600868, 0.177743, 0.500394},
                                             {0.607238, 0.179779, 0.499492},
                                             {0.613617, 0.181811, 0.498536},
                                             {0.620005, 0.183840, 0.497524},
                                             {0.626401, 0.185867, 0.496456},
                                             {0.632805, 0.187893, 0.495332},
                                             {0.639216, 0.189921, 0.494150},
                                             {0.645633, 0.191952, 0.492910},
                                             {0.652056, 0.193986, 0.491611},
                                             {0.658483, 0.196027, 0.490253},
                                             {0.664915, 0.198075, 0.488836},
                                             {0.671349, 0.200133, 0.487358},
                                             {0.677786, 0.202203, 0.485819},
                                             {0.684224, 0.204286, 0.484219},
                                             {0.690661, 0.206384, 0.482558},
                                             {0.697098, 0.208501, 0.480835},
                                             {0.703532, 0.210638, 0.479049},
                                             {0.709962, 0.212797, 0.477201},
                                             {0.716387, 0.214982, 0.475290},
                                             {0.722805, 0.217194, 0.473316},
                                             {0.729216, 0.219437, 0.471279},
                                             {0.735616, 0.221713, 0.469180},
                                             {0.742004, 0.224025, 0.467018},
                                             {0.748378, 0.226377, 0.464794},
                                             {0.754737, 0.228772, 0.462509},
                                             {0.761077, 0.231214, 0.460162},
                                             {0.767398, 0.233705, 0.457755},
                                             {0.773695, 0.236249, 0.455289},
                                             {0.779968, 0.238851, 0.452765},
                                             {0.786212, 0.241514, 0.450184},
                                             {0.792427, 0.244242, 0.447543},
                                             {0.798608, 0.247040, 0.444848},
                                             {0.804752, 0.249911, 0.442102},
                                             {0.810855, 0.252861, 0.439305},
                                             {0.816914, 0.255895, 0.436461},
                                             {0.822926, 0.259016, 0.433573},
                                             {0.828886, 0.262229, 0.430644},
                                             {0.834791, 0.265540, 0.427671},
                                             {0.840636, 0.268953, 0.424666},
                                             {0.846416, 0.272473, 0.421631},
                                             {0.852126, 0.276106, 0.418573},
                                             {0.857763, 0.279857, 0.415496},
                                             {0.863320, 0.283729, 0.412403},
                                             {0.868793, 0.287728, 0.409303},
                                             {0.874176, 0.291859, 0.406205},
                                             {0.879464, 0.296125, 0.403118},
                                             {0.884651, 0.300530, 0.400047},
                                             {0.889731, 0.305079, 0.397002},
                                             {0.894700, 0.309773, 0.393995},
                                             {0.899552, 0.314616, 0.391037},
                                             {0.904281, 0.319610, 0.388137},
                                             {0.908884, 0.324755, 0.385308},
                                             {0.913354, 0.330052, 0.382563},
                                             {0.917689, 0.335500, 0.379915},
                                             {0.921884, 0.341098, 0.377376},
                                             {0.925937, 0.346844, 0.374959},
                                             {0.929845, 0.352734, 0.372677},
                                             {0.933606, 0.358764, 0.370541},
                                             {0.937221, 0.364929, 0.368567},
                                             {0.940687, 0.371224, 0.366762},
                                             {0.944006, 0.377643, 0.365136},
                                             {0.947180, 0.384178, 0.363701},
                                             {0.950210, 0.390820, 0.362468},
                                             {0.953099, 0.397563, 0.361438},
                                             {0.955849, 0.404400, 0.360619},
                                             {0.958464, 0.411324, 0.360014},
                                             {0.960949, 0.418323, 0.359630},
                                             {0.963310, 0.425390, 0.359469},
                                             {0.965549, 0.432519, 0.359529},
                                             {0.967671, 0.439703, 0.359810},
                                             {0.969680, 0.446936, 0.360311},
                                             {0.971582, 0.454210, 0.361030},
                                             {0.973381, 0.461520, 0.361965},
                                             {0.975082, 0.468861, 0.363111},
                                             {0.976690, 0.476226, 0.364466},
                                             {0.978210, 0.483612, 0.366025},
                                             {0.979645, 0.491014, 0.367783},
                                             {0.981000, 0.498428, 0.369734},
                                             {0.982279, 0.505851, 0.371874},
                                             {0.983485, 0.513280, 0.374198},
                                             {0.984622, 0.520713, 0.376698},
                                             {0.985693, 0.528148, 0.379371},
                                             {0.986700, 0.535582, 0.382210},
                                             {0.987646, 0.543015, 0.385210},
                                             {0.988533, 0.550446, 0.388365},
                                             {0.989363, 0.557873, 0.391671},
                                             {0.990138, 0.565296, 0.395122},
                                             {0.990871, 0.572706, 0.398714},
                                             {0.991558, 0.580107, 0.402441},
                                             {0.992196, 0.587502, 0.406299},
                                             {0.992785, 0.594891, 0.410283},
                                             {0.993326, 0.602275, 0.414390},
                                             {0.993834, 0.609644, 0.418613},
                                             {0.994309, 0.616999, 0.422950},
                                             {0.994738, 0.624350, 0.427397},
                                             {0.995122, 0.631696, 0.431951},
                                             {0.995480, 0.639027, 0.436607},
                                             {0.995810, 0.646344, 0.441361},
                                             {0.996096, 0.653659, 0.446213},
                                             {0.996341, 0.660969, 0.451160},
                                             {0.996580, 0.668256, 0.456192},
                                             {0.996775, 0.675541, 0.461314},
                                             {0.996925, 0.682828, 0.466526},
                                             {0.997077, 0.690088, 0.471811},
                                             {0.997186, 0.697349, 0.477182},
                                             {0.997254, 0.704611, 0.482635},
                                             {0.997325, 0.711848, 0.488154},
                                             {0.997351, 0.719089, 0.493755},
                                             {0.997351, 0.726324, 0.499428},
                                             {0.997341, 0.733545, 0.505167},
                                             {0.997285, 0.740772, 0.510983},
                                             {0.997228, 0.747981, 0.516859},
                                             {0.997138, 0.755190, 0.522806},
                                             {0.997019, 0.762398, 0.528821},
                                             {0.996898, 0.769591, 0.534892},
                                             {0.996727, 0.776795, 0.541039},
                                             {0.996571, 0.783977, 0.547233},
                                             {0.996369, 0.791167, 0.553499},
                                             {0.996162, 0.798348, 0.559820},
                                             {0.995932, 0.805527, 0.566202},
                                             {0.995680, 0.812706, 0.572645},
                                             {0.995424, 0.819875, 0.579140},
                                             {0.995131, 0.827052, 0.585701},
                                             {0.994851, 0.834213, 0.592307},
                                             {0.994524, 0.841387, 0.598983},
                                             {0.994222, 0.848540, 0.605696},
                                             {0.993866, 0.855711, 0.612482},
                                             {0.993545, 0.862859, 0.619299},
                                             {0.993170, 0.870024, 0.626189},
                                             {0.992831, 0.877168, 0.633109},
                                             {0.992440, 0.884330, 0.640099},
                                             {0.992089, 0.891470, 0.647116},
                                             {0.991688, 0.898627, 0.654202},
                                             {0.991332, 0.905763, 0.661309},
                                             {0.990930, 0.912915, 0.668481},
                                             {0.990570, 0.920049, 0.675675},
                                             {0.990175, 0.927196, 0.682926},
                                             {0.989815, 0.934329, 0.690198},
                                             {0.989434, 0.941470, 0.697519},
                                             {0.989077, 0.948604, 0.704863},
                                             {0.988717, 0.955742, 0.712242},
                                             {0.988367, 0.962878, 0.719649},
                                             {0.988033, 0.970012, 0.727077},
                                             {0.987691, 0.977154, 0.734536},
                                             {0.987387, 0.984288, 0.742002},
                                             {0.987053, 0.991438, 0.749504}};

static const int ref_magma_size = sizeof(ref_magma)/sizeof(ref_magma[0]);
