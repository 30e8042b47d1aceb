'use strict'
// Data for the primality and modular square root checks (found by a search; the specification verifies
// everything it relies on: small ones by deterministic Miller-Rabin, big ones by a Pocklington certificate).
// primes whose Lucas parameter search is long
const LATE = [126311n, 26209n, 991511n, 14281n, 319919n, 150649n, 1304209n, 2506729n, 66239n, 594889n, 1803169n, 392279n, 166609n, 927671n, 994249n, 2200799n, 600601n, 1101409n, 2172551n, 2121479n, 1570631n, 1730089n, 2144041n, 1915031n, 701399n, 880871n, 2798351n, 514751n, 1579751n, 366791n, 10939009n, 15861169n, 16570129n, 22000801n, 22684561n, 23888929n, 24583441n, 25970569n, 112962677994926894219089n, 98523578863363815495889n, 102942920049272085840121n, 131051797293562779175369n]
// composites, not squares, with the same property
const LATEC = [34404198281820945617209n, 1037672551969n, 29953117271502405730201n, 62147404517283108056881n, 30934908491772746418169n]
// [N, a, primes q.. with F = prod q > sqrt N dividing N-1]
const CERT = [
  [13630298520305220838106131n, 2n, [29217476100479n]],
  [12094498386707456295892103n, 2n, [31699318731929n]],
  [14103715064217663595542101n, 2n, [26791418521789n]],
  [10093861800969190410106873n, 2n, [19067971011757n]],
  [65959744015341374278088415787n, 2n, [2128282920177233n]],
  [39917838251638884434131997759n, 2n, [1304927151424661n]],
  [52640548912538797861196196941n, 2n, [2002831376175499n]],
  [48859803282313055329264511657n, 2n, [1391789904885517n]],
  [53447621946540379398598540801n, 2n, [1725578807556937n]],
  [111627525035479707677146145683n, 2n, [1705713216909131n]],
  [95008679994023121669943458823n, 2n, [1462066350765173n]],
  [91473917724212859138984636829n, 2n, [1302351253553759n]],
  [79497052801597878148163749673n, 2n, [1139892161274991n]],
  [89126578069990736368563030529n, 2n, [1634477624301913n]],
  [98414661300158800141850772619312955507n, 2n, [42730552251799927043n]],
  [104105385205963330655199463568635906831n, 2n, [45863719037203735069n]],
  [129632758508917340212416805189087863013n, 2n, [57068356471813661417n]],
  [100669601701741194625638668149780186889n, 2n, [45074342878301458921n]],
  [88428754282052873482105159783140742657n, 2n, [43017877439577241681n]],
  [173204296712491526207622868151338612427n, 2n, [76305226756294934159n]],
  [176677457456602267748382233950875864671n, 2n, [111590040015666247067n]],
  [171808917674805622114929661483468671901n, 2n, [75660832752132051637n]],
  [211863660402792458021478625649390020169n, 2n, [107519299491684379393n]],
  [170530171499703947554180475758996059649n, 2n, [74181172063810830749n]],
  [375613592640914063029611314174729467619n, 2n, [121851614081916454871n]],
  [374438409713493732901363129604337950551n, 2n, [91020356361768971771n]],
  [358380461466550521152497635725454685309n, 2n, [116023939014812695637n]],
  [529283273869939209120609770689988551049n, 2n, [114908923964086542707n]],
  [360116325504651512187901285731505218049n, 2n, [79245192538018728959n]],
  [744122334834750058213627588370181822704606281051n, 2n, [69916745376640446792091n, 562703n]],
  [761756625930975613476561966820891624920881911231n, 2n, [52395163429809380400347n, 792223n]],
  [736622073557101783569345871987500658364347901701n, 2n, [67600046073876768268121n, 597053n]],
  [830575916679726319905049192353783899964685518041n, 2n, [66838233753580686407573n, 905819n]],
  [834400800377538829802515077732166290159339787777n, 2n, [62334585618576501117749n, 994363n]],
  [3184916601879562489780550897478776293852886328927066662411n, 2n, [38819563666517718734267n, 9081847n]],
  [4963719327413119704067229420037280285483827050745509836247n, 2n, [41450938108578147976447n, 12848729n]],
  [3576087415456437259231267275955324322487343818996078606173n, 2n, [45007086698034084792473n, 9301429n]],
  [3469414197488738507773356917894448934139630401139002611289n, 2n, [37816180093148704373887n, 12750371n]],
  [3266700981087013041433549967301298544992691976101596891649n, 2n, [74821884313016908107017n, 14181047n]],
  [13557240694350106161655547509145453384147669650171170670506641813579n, 2n, [75270287382249444534193n, 931633919189n]],
  [19930703955334469188157852114738220449056861390170895992243541334623n, 2n, [68970229324356211086227n, 1056582435583n]],
  [13539559822408970820056265821771924387251982805914175067741250108189n, 2n, [61464989553493939109231n, 766961909551n]],
  [13848637891899801131481707883150502801470074900322826166414050807417n, 2n, [41685128957348470741879n, 812858298893n]],
  [15232791194859575078437005335922229354818796304569464415925727150593n, 2n, [75110257145641350908179n, 632664517301n]],
  [31721039150652199557360120654284059513568326337262003674066308663996399295971n, 2n, [44596669017223582160647n, 20965201728520537n]],
  [29268254980004132847456895902159827833626618565750554226728120477517776957239n, 2n, [59459968543344153814429n, 23819898127424933n]],
  [29850989251721903977141619701672536882101052918292235857165894768097300032469n, 2n, [65807627458640582290801n, 21738735220087129n]],
  [33093802968857485977836016814802290267339878596954995289454694566469214631833n, 2n, [57893751598138425036751n, 30255155823886817n]],
  [36159249961424757345981436167554853818590340064538722290132609486612404690433n, 2n, [42781569016184535636037n, 26381506275375187n]],
  [89576237161343011369102077038989877989038604192583393502224889000793657779427n, 2n, [67002535209868713923093n, 64263636493509469n]],
  [58582646888257183659381033024797456189873089431921284710977627954009867754111n, 2n, [38180146809315015463111n, 43955239208795227n]],
  [61713585697556575578847068972707907919200538105498693956131460969716936724317n, 2n, [44264851992807434941481n, 68922752551098307n]],
  [86174624914785352090313179859262211487202049376595215388160401562968021760777n, 2n, [45661837496815401221923n, 46617792312362723n]],
  [64828120695169587916085255756611793616993849948917516962448313195508812188161n, 2n, [41756666492685770161553n, 48948335540801261n]],
  [117365720612729275387522890862134673818801223896388321238920222226660834741191n, 2n, [47331973992076053942703n, 68860256162538101n]],
  [161926720886308773366033610394436939104759653649567248053471382047299097438781n, 2n, [40796901236734257579011n, 48577635724595143n]],
  [172173699447474094598835404228149895507920505149207128410103270992468950937441n, 2n, [71827754822310397717139n, 58996476797974619n]],
  [1402866787649453176999348174674876152479078891780137634739146781439439853580561187390259092975591n, 2n, [75115380303333384077761n, 49902957771223614396089n, 789527n]],
  [1091969154144945539657395721438528897778265378510558196322915709227071898384251064513543856726229n, 2n, [48113062451575744605161n, 74779022807271767003413n, 852367n]],
  [1669217100250401532286961171370818140859293139658785815547672215492349313658956475691399051294881n, 2n, [51356085158741731576543n, 60545242701901684536419n, 791773n]],
  [36935233560537730348065805292243075373969911521692360916872742870751085166949853287215240633305730101255247654683247n, 2n, [64611608679594175868857n, 46361109915482167380383n, 15797930213167n]],
  [25031795693077392609776256325902746856135746611927440332362269237125480373514736042832177809750961548442792117599693n, 2n, [54126338776865002090799n, 56761588883763974548147n, 14058603470689n]],
  [38817276932133630653525512335994430738597092527544998641609380985578823720268613039405415654620281139288615879248481n, 2n, [61255701777609826275277n, 72177572308538454035339n, 11216334217679n]],
  [5143333973334789762800759760276591479097647768169256413165109360319784555537851081530391842045615748690318634422588671007998474389499756293776407321533211903n, 2n, [59774929199091287440139n, 71447220961502985005843n, 48349077345974549924011n, 109099874321n]],
  [3436147303083343906701715500911390217584212087771774451645256944416417654993993534139897043059884969350046937783928903568933326201727532244051303225138535213n, 2n, [65391509348105151494737n, 69001671420873050595217n, 39899643268305153524641n, 112740635009n]],
  [4014012925892983830997118297635584396572356388567208284175176961562759639292362172952012716209310014435175258309228264906945114426299779836105810358309995041n, 2n, [66160465365232383690841n, 42023577557462356023743n, 74594994314422653482161n, 89623635221n]],
  [2508994036654494698342235552527150218253168647598208156811217334423812021826197566516555430998182516667713060452173913657150946359388819722506051974033294159005586120769662559433900198039719711n, 2n, [74646824161223373217789n, 64993048085899977543061n, 44005517427199064068207n, 42783088178956528042009n, 2070217n]],
  [2325083749163256708741942740862450033852064901230560070952136050177785748152596744198396986601919257588525045105434303162060861048918799647689998385363748898568939996280377672861480621351501861n, 2n, [50276121196142906912713n, 59467370932399653112063n, 50334344510323409971789n, 58097570692736638286849n, 1058009n]],
  [2415006014056902028361634598158815170490706809430539096146570834909892775213081553144266558279765892588498630704165897239108529594323731153795437200118294966422457149095827891402079098061015393n, 2n, [70800960938529026373761n, 45795769356258367937633n, 58888811229368877075899n, 50148732736468883231063n, 1972847n]],
]
// primes k*2^t + 1 and k*2^t - 1 with many values of t
const PROTH = [1066285847695361n, 12542733259210753n, 252419997260578817n, 2027400288312229889n, 13574688893055270913n, 142581558831482929153n, 342551709047446306817n, 1389392581916369092609n, 225623440652404523009n, 2879459938966060400641n, 879556365249933213697n, 1375943556305482940417n, 1269823318349471285249n, 6270302012506317520897n, 17017657644782909915137n, 10646557679946532126721n, 25478332812629358149633n, 163210637977207839916033n, 43567220667705313984513n, 1193400648185400411553793n, 744200949781879016390657n, 583660124059230344839169n, 1425058936050394544996353n, 2254572334500470474145793n, 1325000419528414339268609n, 1314276703710182939557889n, 860924318008277525856257n, 1118680552197456081715201n, 102432892966164433469441n, 946905015192727742054401n, 1925080873477294325235713n, 400541576004641400815617n, 62073798211190906683393n, 2663319003853597532225537n, 609520776448024825036801n, 154735900976294146342913n, 2030336274786823371227137n, 897720023719112184168449n, 3070359093976549463949313n, 1304277039731633847009281n, 2923200193128531515932673n, 3077101378935490305064961n, 1467954999897658698498049n, 1899498130758019949002753n, 18668105002594066235393n, 1718646251859371504959489n, 723407515594593776173057n, 2083744210566230950543361n, 2721263685753633054392321n, 1194758720166020239065089n, 2649247596889870964883457n, 1265594217409064917270529n, 1605604604175679372656641n]
const RIESEL = [4494932219285503n, 575873168605183n, 211123856561930239n, 168567612930785279n, 14498830800511827967n, 73897265848828035071n, 336407761972650573823n, 862169672278719070207n, 2296767203167126421503n, 513040727940343529471n, 2758021538408986312703n, 6631759960744057110527n, 1093871582611016515583n, 12249035143517290102783n, 10399647437248998146047n, 4696014456385016168447n, 31619779170410944266239n, 146518428341015446290431n, 277896493558521516785663n, 686231300767735259070463n, 564388567467605442428927n, 2075420710172833351729151n, 1285463931597363565559807n, 1817649704409973485731839n, 3107407577129134847950847n, 1550072729435182290960383n, 3009559421239361942847487n, 375869712205700564779007n, 1907562793038846799904767n, 1685116637381624246304767n, 186050735229293142474751n, 3143076807633458857771007n, 1932530989189668987207679n, 653606188941181439705087n, 655496980208736668745727n, 908045588714371105685503n, 1671233507903919529918463n, 1608085691253593307348991n, 206372949324625608703999n, 3255942562730104407982079n, 2304902225265934764867583n, 2420397289911430267535359n, 2294073986494667258068991n, 1163399255240714001317887n, 2907280652992920172888063n, 1869171683500841446146047n, 1302487705556484020502527n, 1894849551251445141995519n, 1146354463716606375624703n, 3187597375937010519244799n, 1298650782789152433766399n, 396678784561050197950463n, 2134509650257079636590591n]
// the same beyond the outright decidable, with the base a and t of a Pocklington certificate (q = 2, t times)
const PROTHC = [
  [9316658234139233136671263687704577n, 5n, 76],
  [1037428684832706435075469234667521n, 7n, 80],
  [16908280232575437946682198301081601n, 23n, 95],
  [31555303021251565029019936808578376493346848769n, 23n, 96],
  [20757778578737256449508514988033n, 3n, 97],
  [1200507788601759816238178627225694287433356541953n, 3n, 100],
  [18142324533573294648781548882528438077882369n, 3n, 127],
  [29271765075799975765067814710949852424079700656129n, 3n, 128],
  [117771127769038046023896277210624186446290021655068540929n, 19n, 129],
  [3905288952926088043724387624792461287501962593164863733761n, 3n, 160],
  [72312211991654562399388294155352317113499134720225677588561921n, 7n, 200],
].map(([N, a, t]) => [N, a, Array(t).fill(2n)])
module.exports = { LATE, LATEC, CERT, PROTH, RIESEL, PROTHC }
