// Points of the full curve groups, one for each prime factor of the cofactors.
module torsion {
  // orders of the points of TORSION1; the last point has a large order outside the subgroup
  pure val ORDERS1: List[int] = [3, 11, 10177, 859267, 52437899]
  pure val TORSION1: List[List[int]] = [
    [0, 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559785],
    [1462147219632039932065353119257988463372869980966730720350212875212651449663043295710468754542809038026246696852010, 3077692882792895987605225967247005269547291542265678807892419069822287716498062904445334027550798692127613625282054],
    [2546409844207224313517292207048401685282297268721617399910938640725365292499653268618151443878038820390269659207365, 600892772096245620344236207733837307856414918210983839313860433062268449959561821164372614991988768861383351485809],
    [3376747497738176532584292541321478044007966108278577692334989129070941034228978086666762189596761488766346748709715, 3273908927451528823844631548178133285949977195653588311245491994302439335990719358851700198388597068493056228087401],
    [2042274210973708863130066897284673747993530309568292014371313210114100674954327250539859924129613106437809848523257, 519871604485046909205782093514865043861374454723951885982589048633041078328391155653437430381072746107549781063898]
  ]
  pure val WILD1: List[int] = [2754553576932507440643964690141948912976457619687667319460263699328698441836078305043309067466883731618130118275803, 1746584487255849954180214627937737654574736542688115543094067743966663624807144193033954309365160760510233032562994]
  // orders of the points of TORSION2; the last point has a large order outside the subgroup
  pure val ORDERS2: List[int] = [13, 23, 2713, 11953, 262069, 402096035359507321594726366720466575392706800671181159425656785868777272553337714697862511267018014931937703598282857976535744623203249]
  pure val TORSION2: List[List[int]] = [
    [1925194753105624810758042276580226345982907983863088809975504153006270200319436440646544779448483542901783919447722, 1626568527196532799364993470969288825659257235691182105602699526208758253477091565895311814235890415034293402448819, 2117140275296279421893968086769240068864155167696890844971301957514278976724943727935678478950531775532651471029070, 1037440673797770400083180941823050411406560058426275934725016318895109109152939265845435620965215824716731508466907],
    [1715285132432421227892055144260563575721932042861298813407140902964013595507613450867644313692759240297716893720304, 1067556269662939748458651238540711642903223994837076946602749107922249027437249049493142494646981431854912035545412, 931335288632988912971528626919487135063321458431209135704962414354275085053910385985519969181954923815549550502028, 1532351230065140350070867628917171243308825155184626900456537391819565330876912306810324500932468728211826107281643],
    [2167466101818420594487623808533550900513704265577041003064635050718433641363720965635020453211294692188156999842963, 858534637118123996234623958662497193969974132221641976597635534317579768615101289092824320131189597191401231448741, 1261428984989140787577855521131644790413662120963733831066283475147575541034791786595251703891420228639444202288269, 2102250838237680840298223384665346832005724622387487171194791808499091991250245231744452692051588465582899561647438],
    [3661091520503795251780830642830668298588865451468513607553820379368459474085203543728435204181066941874783580301095, 677385647097276824054478656140846637829563333819992924624937515224442418943699868259081003109869124145953169622573, 94137155011742743941398194337284630987459206330373755393991591183758149319300511513164737063330420104188370833255, 2961055269936103857183613769098041733864355508907246537228000171172886140358715634535650951317334311754526078654432],
    [3178302719431620792245016984178126671810443053947611922978144932177033359587738492175906561513662425139926443753660, 1542115275999165852451550757601220362718866074474722270221592110061015827823512537646201696297093587126588667668640, 2484567016523193856455123523358283114497376371923264543849938580616330756679535820944593551642034948444251661514344, 2967775373252382097787374704404841104938762266817199521341335488339319561222147617616465390563120368743174683052016],
    [3093454564711896711190598317046706656773728885578946767922673616037163378463168977953765783500219578773463166701339, 3658525678331196297955146235935175713701446517625263601915831969215905585116129447114076312821737694087758658599308, 2085296173631101848680460954693207131885609344103752882165743316495383766332122972411206073510170033786724948240836, 1663495137428663559829120650685912400485938634045112691265687563226564656162175820625034131898895407415421775620857]
  ]
  pure val WILD2: List[int] = [3521608473995093908546439377715678883177522849308472336052737380709853062768532561079063709497092533910476447757464, 3708059551177341634491731639793523002985630088814643015107733503277776937484508194676558459683539866539017278739868, 1922842098566598235982000379899007376534119870967886568709059461746915770667864800466676407319136403210063248411379, 1617547112222719840797574378665220582730603913507458369978129917065084547386608999617672490638139186783050831830557]
  // points at the edges of the sign rule: y real, y imaginary, y around 0 and (q-1)/2; x real or imaginary
  pure val EDGE1: List[List[int]] = [
    [3988515520939301060678112470109631856637084009983913176887705240200322483093801008462718378335412510215474384140084, 7],
    [1090712712168993934846999463150006175545573390186150938826582364010430247056366536266619284760136141135268954440048, 8],
    [2630068448484401084399283198768183547604785800108525719687492967989614041279059159521075452184541501109657557148178, 13],
    [3522929265876170279055163899962468279303271776098567292662638118044148376717017283697874706417841330500602535413250, 15],
    [1463680781422970240492204897393252697306151351497115278885958142015619929110506120524474004761862000891294374512236, 2001204777610833696708894912867952078278441409969503942666029068062015825245418932221343814564507832018947136279868],
    [1690182103832499593898091172631894870727726613434098242073609895678931571143882117871036041044582222439548902871214, 2001204777610833696708894912867952078278441409969503942666029068062015825245418932221343814564507832018947136279867],
    [3497911926665631485871378992043442223389554824753709819924671200511475908864331946761773815976342746656431958998592, 2001204777610833696708894912867952078278441409969503942666029068062015825245418932221343814564507832018947136279866],
    [1051879694673525668686892919307265657438480367680303219192989235138155406042311358851572299665120886083142291066907, 2001204777610833696708894912867952078278441409969503942666029068062015825245418932221343814564507832018947136279864]
  ]
  pure val EDGE2: List[List[int]] = [
    [1121574099937124220226779174149800340129897294321205038872890745394888374059471185254198700077754536564841680266964, 3143179622492630237648523002212749481393471464593010712585110042816057549448737892551904187996455249528563293541429, 175598878141317545021350138061558058675911370920636520066543357336243134147650878404507498057269397962197226190742, 0],
    [812616910008248879101771708675914836841572655720439078404963841834594607582709730639149817949796487631208355240849, 2788129923515872816707428799243663643736065701343623398017025077364718711239071792962606617724248414757141507491167, 0, 96686194438544896461164305169569356193256639346106956073006209778887592750299195617229098219775938820286585920877],
    [362266080198194330285511117808937585522027287704388208263176584208406565001789174308380759203107917499488876797805, 1748430654141750312983768796229278488597948646895546356530345161299734431150926459377445041609766038752826849345054, 626595752239019323871588165499028420449430852957456399917831385541811202230366138469918975701793760705510284323671, 0],
    [3072029810116075247210050081140143542612310749751859197343960659191127691183019844969412554188212712043160417479774, 7000057006857740978562942662489088618516721591958689213928445379753563252246331469265322526150311114097816975570, 0, 71576354070241672337506611984912957112713052469959103095227695908083806256737883749793578662964498945652681420603],
    [3294889941369057078538260526855700197019566021799854254626070495715093345680386918911725941619877539431768787284598, 2345775128205957340222674121796179210425272076665202874049091752909265890198319767156800129317043368848797038621412, 1081473983194035979726848072889227011982539424077282938356937790629812528874386607881244262254277629822980949362254, 0],
    [1565921447080420228084901637541806520700397368860339798941396819860035145004290418050726558399988411248671727947002, 3292073121414416456084781569910447158332435451582587187700665977733305723294176773595476572670464899151243687890854, 0, 2021727847003988838434488245915562856384724480825097342573934483451470357629369652496182035997676338650026439635246],
    [119770983795192431014060439713511801392371642789289912678393015360955242551777942989538108991482496446706442690533, 0, 3478933105457791757311408971372080600580419390254417251172593164203124940481803785002444833430292801639587246048797, 2591486234197479295364953877713255402285042398217560314298246452527857437179129475040119306687376630059957018350750],
    [0, 356944474631929362219563940851711569109388353179774544916682972518022030650678942483848161825052290520750078412116, 2401232083938628343060645329210651945274568514773626595563925105586475744013851226143291249669761247973539904770527, 1589325427377662782749524810586598447030041063751507496212667442439503690478413694049699012015851725528194213301037],
    [123298098859127234884676099138213512191641712789616008257794163351881733519257830055292736009818901843418366466935, 123298098859127234884676099138213512191641712789616008257794163351881733519257830055292736009818901843418366466935, 3118453873062295606197118418444647435641828190727209464308990010092662724235607714639978151629745281929314466404423, 2769423360290409504939504016194895605426533284738293256848760907868512498187216034131962845323344626431172297292443]
  ]
  // points with a short coordinate, one for each position and several lengths
  pure val SHORT1: List[List[int]] = [
    [86681026104091238840972336656419330032320229357016740228452122000203230182670700258796526002795681669852130144987, 1350029253905371751648468569340876532957062432660162041948911638979675028758018487303452511680138170126378719852086],
    [1798642975447051293934024696800175673460838708349823316280337416603246233748907501096587071840799752251346534660159, 152155441757765861500154146134859856814135624196210639368108283709669970962870930294443893607143930398580885615011],
    [321433999362005182014820758526235297803024026945687018789051193222958594052083097238393085602155489195745798687, 3024099658094801088293111534633273551772399721853471557094767779374388014628640007562513422410056974147880393019789],
    [3615856507904998365550726209710063639260168844460397481013720946314626067589231678117746329259792777600078579784271, 469469048019780210079869785008962398511650212319870181445178247763364971441774553950461246807244223807766028677],
    [2080119662198759314891754789295399179198992577599276862310197413994680920402907024319692123268873521509057757, 3569038871290591745223810765205339639369277839838050667181905437470508667673629897076717730099757589538359761072690],
    [2519955126146789889403542965740922207489267205083257322168333933008894508399129962077931463232254126167576585899795, 2290476182004270952969880785834251324002027652105665962741992640638383711567286819712627957291994213811919280],
    [339763398805280852519664850390283155119143053023945512863759184207613204959185213918796957214061, 1573324580424335986719681993789033927772858269402420740835859328670236528741771726849812240909764092923834231002872],
    [1882276639603089554483914409447517897536555138030959122049327440801543928423013584461525104526367637750338883364737, 722547987218585693218678233944611825961707693035061648502436898939610720561455387097532275213739],
    [57868906910861911374381788212229568087690041878577427015677865544574400797703, 2085713493949853206762998101186061232238824849762153615133243962424691811502795249841414860297314730640424947339425],
    [1603422621734196093511539487703594518709519800203958567783447239427155998779774323048984713493698650019767710945579, 8113575478308225464821447637352277151051830713096038665931536049211332784222],
    [22, 3857330260494938604868840930570098379359899344621348379234770829537245183023603393058112731220901788678485884493053],
    [1952592138290216704397887950293409951422912930251341334561181748010012133973937232763931977854915600638538497510033, 110]]
  pure val SHORT2: List[List[int]] = [
    [10122667577766099092949936760661448175806242627381667913386953731127106131945654424872975548099280658141367061030, 2064364896357509272934636908778754920936562943573658898024006494450675877256437913688509496410764690853805709657295, 3666498765183764668498971222195710166230072288630336959212953548342793222018891814103193278551849152598546134612143, 3930271911278322894856313716418914475931819489643775834938078270436814116292696965180486181278675205279937073921365],
    [1691703898441129915493339215360413070365952368917640226225014325523520211922986049309514778686331922210260113978407, 38837576221557742546266052681424931811503725125684178203461751242680473390659528846187848657088925781362494845268, 3710616505268561031235826546583567780529901180582451112048456625589638346636968521479577051296074593611359707586259, 1814967456987660263384705738986036402814584432927744527726510803750207681246459878926284946674703433940720159046100],
    [3656839110963900060852349015080762655831395410122593259116359334650928505585196032287335100831808721036285022423804, 905418746070737231676936431059360738822234281891065025709564226309510656267811776302942263412847807324217423902964, 53248439533282148550891419742070628186070942751036027239436381595598525364960928963115566448000256202462312852768, 3886486679977622350437844103629629409505572614975379043669344309354295229388860736096073264758553758283864293799253],
    [200355377250149268621437717456124566856504027748672484871094297732709130975072661139924121082810605045056001157877, 3573098410927565506884820918939312760794939996894933020378183854397285737128888302834925980808524618436936455532437, 3225874063574639909651565706130883354099617293941955099394341683819075091852532493783793882454406326256745216173805, 82882310044150658752134318169886889733463502147836882330614811738193279003743821295122021543706096065434181429738],
    [590245566541137689012835068225189884924264311690653270203245014775342079819658095588794394007787606352785045214, 2357333070002100401449257351930911098735491539523555264718250026936645275650746921034492021794554478856732108592599, 1949364331979734052531825530990935467434081974314085559199466143012658823214656387241721049729769117944303340435200, 2729499271723403966941255592447977282013572178431407612433724808392583595524225818631830246941209883714614512540203],
    [2475908907227774865883507477689565246076813790399024715862775056099349524343057153552273092293881414071544115130888, 417234613151771173516163846820737513866423309364418440294753863240563468095763556799352643958745007457177689531, 1010873212891627465113703247712233370051301423286440481789491426754621802562516629869885171780054615208788477576435, 1658991697627816613967629510391892167733979280218705510188799526441403106483868891110754723597781767487404200900113],
    [2382206120891373342901605182425627129930392297503384724597832789667715567484870438646581714351231889383849111389973, 737781620129021893241705197292987697074101665523265175049684931835824510459422060778288660989331656845166509154850, 571207764060484606654940126773892031035745866683653725054456474584088706632090686434847098186244811926455006354, 2934810440391364701490279263184078781862231675812054389790303770854703629079823013775553971943236733269867317532212],
    [985567688896375011284964608679286172672404167622153192025370831815911542569105280113149185384469581250989773971130, 945497600043558230477493688450537702893411734647225961578542044508782813205415974707244792684892463690752961519133, 3262854672320093759527834277596110268945904281536260070055798822042956339997526246748072352382698020729676984859441, 198347140282162716559783276784107734747773027047168515266631593376849004586482305989707362729545929028871842069],
    [223098018968514557090660614558997368541761363816715102904765469932642645587642416869599460316499530722170608, 2548491492345983270861239415010538989385515846194493648169079382346248968529099327609067531024447062060429102473345, 1430614897313433738984361117457780765399955260139903596920785981817322725268170052694225687395606415645007732937346, 483790298155204180038311444172156590033629136227073300966994655460899870250634144694656733651552230375313413793042],
    [2535433490889141717539069638745124025740123926877353387370902482604074672808208405370733944629321129136550038788482, 2073063087734602240534629719486346211198399428529175585598551137647918516253345506950862232473435714056990544, 1916103143185423467556561442945003360896374092951720146134919686493772830348071689343250101274784405631613206733946, 282729789228202494257562495277456163777869539604830468693709151428491054749299860767902177256509665642716186177925],
    [679716971020966503528958403072921305539036220934819412790548398159685669448409183655134046008036821554566214135816, 3889985916328801706113417448746726187188117364048475200568169487497946650704535780831664363166019334036701854606978, 2113920582832023152955452398865360697883561451309707943900868090679847560818650915293969809569077003147182668, 1095415138121641558465743560520665540435906271616885755590183792915715325197713407098979000389403819195852252625658],
    [681572082356315575195648292937134000974119195485163839944257031598187533724078006637466748818402862724569343956815, 1875419393180530648420620393971827732674063806049363201739454787061608510855703953723833552122718328865880800779667, 1515908684810438317615561252858851497830420363987723533328678320619928875546225518479538532325821953772385743454238, 1551380088893818449808303326684600925297931281440857730160409151364889939365889011044673675622019872244574198],
    [179191185004748756434504631603824652595180188842459598273548766333792730228965333424545782427622, 416098529807465802458151434349548562720052876524191164177946281039599880242787159394250321218687412439594951119905, 2412620266032095487116703369481057758173070747660623749270492613852639700347618499002907060079337291730338927900634, 819128301422305715525989252168033087129250869780908068532856001866093907067162057102846513925461602405287573660412],
    [3166393498718917881146293537144697408015162656878946049615243791737703555518781023290984203954217712212296322734620, 916863160995487750961597107229591249875950215555792100409484814785197247084172085651491980445620, 180355295907708612693940280391965757607255535119259824138560757525297803866969495868868667320648801244726986504572, 3633780839792605020456258102043843808516761065911736577432398600201503646209513519311787478722572515582394727181985],
    [212917659032029158030887297029799712848241700491686726590990041695787810416673352458840814267951638054621986894024, 1214614769093287401788353770667277495755319039654226926749886109571418059801090852552056418626204719750682458021380, 1806045832960806764306579106020293839548216868181804396883145953378772786084801682214943844578163, 976628595350953028816188802995278595347246630374462353506879619734926230049585706559364677910884472916003997580241],
    [225048726832196350824009625959132411048360335986474481287552651643513814694209343416650908099214619775147028812398, 3549205996567118814121752311588899546386701019298879486975526705454193814494739716119367865585353717612316578557468, 1289474795859231699652741780094241067047652976094567211031232743238958097026428798169983793924060308604990720042056, 826305096760915103593129106795275323415671723142540421235630728141166936710169778262896717798586],
    [18057064742118471253094604503939545990946087395541226780472863620226719642158, 2148595063953794370021130736267682682019258709505439201182737814250185121105306743614699151482050310203657817794624, 3095571996105805507934760078558937150468513688611895206123583624747860292282358030003903176970005159263289116637296, 1369909384420877233232023461393040810132586626945901429028653003978127247820197055334453551841119241111665987581346],
    [841049621731224068352946374387549620500597249635215866223413833527272056610613685091474000475275498299805951515077, 37410344075744986911080079243864907699539159153978262953261830987802683500709, 275595641509425499562840778685837497220992761361471660148028407393384596919572225312370927639082493412765852237717, 45607023555659557219417264095919102479983508828288752123317950137509979441805204417234792506696080405966879075433],
    [3531142981212496217061166574538116505505409446808653978999034876692384904254136104275110151656757183687690807933372, 1814022736975235315349631143561345123569835822905939990040904156442204667558255002824218488136672036959161302439389, 44579680895670418389755418496321346880484845582718756876312788501595615727216, 589761952924545287663048666090413438356546456078299582535038179153589275149329966094537166093030075701491235982280],
    [1165388993340849659954527677395109594394514809940180623453122863002174634663974672421088392867104425777125670564924, 638179346285199074694138238463003581538981490622922753116129296894992324882849767056622096479326548516124368956961, 626723496154290879042925474126727094497917342256305687023834786663437796689368528819033936287632171562787575069636, 24073798434820486028782322394761347840916787454921418452861655627740293135137],
    [243, 194775276175941935941585493132177462530185151032894413635814141629863380266047477420949825944628289642150742531085, 1452116203941429570789656707336874956407156763860186103021996993516797013882968282749472776229113213961425339183721, 2168348383312835382733265096699629046027547372920193199393589704036084637504033914577243497911006535929271752375744],
    [2870884240763212397900408196322116499793225273189879042281940550417105553169566904523661678889010845852885252282627, 66, 1124074179169409807651589776239848124225266566641547283847583163322331488327344597745355298991919812325820733840479, 2804965027219408370348410538575700046687193090054535487658056460539790823816338073866207371287138403502152290698108],
    [3054337761553848370458133544212543848032342034653800405372429362137350147319249937462196864025525212542103751140021, 1316323427689787127354519204607732814170864338323886699630768391441417170639983585466364474224368487850384601811239, 51, 1372192831933695119575963141201375089013211698167794011800668504610865808640299109571360553135446062346696935429822],
    [57768144215683792594562628980151974207704728378284819886098775050419849872632161157929982713333983803615144225771, 2797555712700052168927545789560024296092164680926362591718284723226381045552514387388282631933430208159392227746003, 2068683511661691142727274884903467209151910141105298033176471917963408502148452993331945257124712101069124184859606, 247]]
}
