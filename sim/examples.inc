// made by meta/examples.py from the repository's example models
struct Example { const char *name, *text; int S, A, O; double disc; int cost; std::vector<double> start, T, Z, R; };
static const std::vector<Example> &examples() {
  static const std::vector<Example> X = {
  {"1d",
"discount: 0.75\n"
"values: reward\n"
"states: left middle right goal\n"
"actions: w0 e0 \n"
"observations: nothing goal\n"
"T: w0\n"
"1.0 0.0 0.0 0.0 \n"
"1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 \n"
"0.333333 0.333333 0.333333 0.0\n"
"T: e0\n"
"0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 \n"
"0.0 0.0 1.0 0.0 \n"
"0.333333 0.333333 0.333333 0.0\n"
"O: * \n"
"1.0 0.0 \n"
"1.0 0.0 \n"
"1.0 0.0 \n"
"0.0 1.0 \n"
"R: * : * : goal : goal 1.0\n", 4, 2, 2, 0.75, 0, {0.25,0.25,0.25,0.25}, {0,1.0,4,1.0,11,1.0,12,0.333333,13,0.333333,14,0.333333,17,1.0,23,1.0,26,1.0,28,0.333333,29,0.333333,30,0.333333}, {0,1.0,2,1.0,4,1.0,7,1.0,8,1.0,10,1.0,12,1.0,15,1.0}, {7,1.0,15,1.0,23,1.0,31,1.0,39,1.0,47,1.0,55,1.0,63,1.0}},
  {"4x3.95",
"discount: 0.95\n"
"values: reward\n"
"states: 11\n"
"actions: n s e w \n"
"observations: left right neither both good bad \n"
"start:\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"T: n\n"
"0.9 0.1 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.1 0.8 0.1 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.1 0.8 0.1 0.0 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.8 0.0 0.0 0.0 0.2 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.0 0.8 0.0 0.0 0.1 0.1 0.0 0.0 0.0 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.0 0.0 0.0 0.0 0.8 0.0 0.0 0.1 0.1 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.1 0.8 0.1 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.8 0.0 0.0 0.1 0.0 0.1\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.8 0.0 0.0 0.1 0.1\n"
"T: s\n"
"0.1 0.1 0.0 0.0 0.8 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.1 0.8 0.1 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.1 0.0 0.1 0.0 0.8 0.0 0.0 0.0 0.0 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.0 0.0 0.0 0.0 0.2 0.0 0.0 0.8 0.0 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.1 0.1 0.0 0.0 0.8 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.9 0.1 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.1 0.8 0.1 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.1 0.8 0.1\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.1 0.9\n"
"T: e\n"
"0.1 0.8 0.0 0.0 0.1 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.2 0.8 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.0 0.1 0.8 0.0 0.1 0.0 0.0 0.0 0.0 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.1 0.0 0.0 0.0 0.8 0.0 0.0 0.1 0.0 0.0 0.0\n"
"0.0 0.0 0.1 0.0 0.0 0.0 0.8 0.0 0.0 0.1 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.0 0.0 0.0 0.0 0.1 0.0 0.0 0.1 0.8 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.2 0.8 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.1 0.0 0.0 0.1 0.0 0.8\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.1 0.0 0.0 0.0 0.9\n"
"T: w\n"
"0.9 0.0 0.0 0.0 0.1 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.8 0.2 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.8 0.1 0.0 0.0 0.1 0.0 0.0 0.0 0.0 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.1 0.0 0.0 0.0 0.8 0.0 0.0 0.1 0.0 0.0 0.0\n"
"0.0 0.0 0.1 0.0 0.0 0.8 0.0 0.0 0.0 0.1 0.0\n"
"0.111111 0.111111 0.111111 0.0 0.111111 0.111111 0.0 0.111112 0.111111 0.111111 0.111111\n"
"0.0 0.0 0.0 0.0 0.1 0.0 0.0 0.9 0.0 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.8 0.2 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.1 0.0 0.0 0.8 0.1 0.0\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.1 0.0 0.0 0.8 0.1\n"
"O: *\n"
"1.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.0 1.0 0.0 0.0 0.0\n"
"0.0 0.0 1.0 0.0 0.0 0.0\n"
"0.0 0.0 0.0 0.0 1.0 0.0\n"
"0.0 0.0 0.0 1.0 0.0 0.0\n"
"1.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 1.0\n"
"1.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.0 1.0 0.0 0.0 0.0\n"
"0.0 0.0 1.0 0.0 0.0 0.0\n"
"0.0 1.0 0.0 0.0 0.0 0.0\n"
"R: * : 0 : * : * -0.04\n"
"R: * : 1 : * : * -0.04\n"
"R: * : 2 : * : * -0.04\n"
"R: * : 3 : * : * 1.0\n"
"R: * : 4 : * : * -0.04\n"
"R: * : 5 : * : * -0.04\n"
"R: * : 6 : * : * -1.0\n"
"R: * : 7 : * : * -0.04\n"
"R: * : 8 : * : * -0.04\n"
"R: * : 9 : * : * -0.04\n"
"R: * : 10 : * : * -0.04\n", 11, 4, 6, 0.95, 0, {0.111111,0.111111,0.111111,0.0,0.111111,0.111111,0.0,0.111112,0.111111,0.111111,0.111111}, {0,0.9,1,0.1,11,0.1,12,0.8,13,0.1,23,0.1,24,0.8,25,0.1,33,0.111111,34,0.111111,35,0.111111,37,0.111111,38,0.111111,40,0.111112,41,0.111111,42,0.111111,43,0.111111,44,0.8,48,0.2,57,0.8,60,0.1,61,0.1,66,0.111111,67,0.111111,68,0.111111,70,0.111111,71,0.111111,73,0.111112,74,0.111111,75,0.111111,76,0.111111,81,0.8,84,0.1,85,0.1,95,0.1,96,0.8,97,0.1,104,0.8,107,0.1,109,0.1,116,0.8,119,0.1,120,0.1,121,0.1,122,0.1,125,0.8,132,0.1,133,0.8,134,0.1,144,0.1,146,0.1,148,0.8,154,0.111111,155,0.111111,156,0.111111,158,0.111111,159,0.111111,161,0.111112,162,0.111111,163,0.111111,164,0.111111,169,0.2,172,0.8,181,0.1,182,0.1,185,0.8,187,0.111111,188,0.111111,189,0.111111,191,0.111111,192,0.111111,194,0.111112,195,0.111111,196,0.111111,197,0.111111,205,0.9,206,0.1,216,0.1,217,0.8,218,0.1,228,0.1,229,0.8,230,0.1,240,0.1,241,0.9,242,0.1,243,0.8,246,0.1,254,0.2,255,0.8,266,0.1,267,0.8,269,0.1,275,0.111111,276,0.111111,277,0.111111,279,0.111111,280,0.111111,282,0.111112,283,0.111111,284,0.111111,285,0.111111,286,0.1,290,0.8,293,0.1,299,0.1,303,0.8,306,0.1,308,0.111111,309,0.111111,310,0.111111,312,0.111111,313,0.111111,315,0.111112,316,0.111111,317,0.111111,318,0.111111,323,0.1,326,0.1,327,0.8,338,0.2,339,0.8,346,0.1,349,0.1,351,0.8,358,0.1,362,0.9,363,0.9,367,0.1,374,0.8,375,0.2,386,0.8,387,0.1,390,0.1,396,0.111111,397,0.111111,398,0.111111,400,0.111111,401,0.111111,403,0.111112,404,0.111111,405,0.111111,406,0.111111,407,0.1,411,0.8,414,0.1,420,0.1,423,0.8,427,0.1,429,0.111111,430,0.111111,431,0.111111,433,0.111111,434,0.111111,436,0.111112,437,0.111111,438,0.111111,439,0.111111,444,0.1,447,0.9,458,0.8,459,0.2,467,0.1,470,0.8,471,0.1,479,0.1,482,0.8,483,0.1}, {0,1.0,8,1.0,14,1.0,22,1.0,27,1.0,30,1.0,41,1.0,42,1.0,50,1.0,56,1.0,61,1.0,66,1.0,74,1.0,80,1.0,88,1.0,93,1.0,96,1.0,107,1.0,108,1.0,116,1.0,122,1.0,127,1.0,132,1.0,140,1.0,146,1.0,154,1.0,159,1.0,162,1.0,173,1.0,174,1.0,182,1.0,188,1.0,193,1.0,198,1.0,206,1.0,212,1.0,220,1.0,225,1.0,228,1.0,239,1.0,240,1.0,248,1.0,254,1.0,259,1.0}, {0,-0.04,1,-0.04,2,-0.04,3,-0.04,4,-0.04,5,-0.04,6,-0.04,7,-0.04,8,-0.04,9,-0.04,10,-0.04,11,-0.04,12,-0.04,13,-0.04,14,-0.04,15,-0.04,16,-0.04,17,-0.04,18,-0.04,19,-0.04,20,-0.04,21,-0.04,22,-0.04,23,-0.04,24,-0.04,25,-0.04,26,-0.04,27,-0.04,28,-0.04,29,-0.04,30,-0.04,31,-0.04,32,-0.04,33,-0.04,34,-0.04,35,-0.04,36,-0.04,37,-0.04,38,-0.04,39,-0.04,40,-0.04,41,-0.04,42,-0.04,43,-0.04,44,-0.04,45,-0.04,46,-0.04,47,-0.04,48,-0.04,49,-0.04,50,-0.04,51,-0.04,52,-0.04,53,-0.04,54,-0.04,55,-0.04,56,-0.04,57,-0.04,58,-0.04,59,-0.04,60,-0.04,61,-0.04,62,-0.04,63,-0.04,64,-0.04,65,-0.04,66,-0.04,67,-0.04,68,-0.04,69,-0.04,70,-0.04,71,-0.04,72,-0.04,73,-0.04,74,-0.04,75,-0.04,76,-0.04,77,-0.04,78,-0.04,79,-0.04,80,-0.04,81,-0.04,82,-0.04,83,-0.04,84,-0.04,85,-0.04,86,-0.04,87,-0.04,88,-0.04,89,-0.04,90,-0.04,91,-0.04,92,-0.04,93,-0.04,94,-0.04,95,-0.04,96,-0.04,97,-0.04,98,-0.04,99,-0.04,100,-0.04,101,-0.04,102,-0.04,103,-0.04,104,-0.04,105,-0.04,106,-0.04,107,-0.04,108,-0.04,109,-0.04,110,-0.04,111,-0.04,112,-0.04,113,-0.04,114,-0.04,115,-0.04,116,-0.04,117,-0.04,118,-0.04,119,-0.04,120,-0.04,121,-0.04,122,-0.04,123,-0.04,124,-0.04,125,-0.04,126,-0.04,127,-0.04,128,-0.04,129,-0.04,130,-0.04,131,-0.04,132,-0.04,133,-0.04,134,-0.04,135,-0.04,136,-0.04,137,-0.04,138,-0.04,139,-0.04,140,-0.04,141,-0.04,142,-0.04,143,-0.04,144,-0.04,145,-0.04,146,-0.04,147,-0.04,148,-0.04,149,-0.04,150,-0.04,151,-0.04,152,-0.04,153,-0.04,154,-0.04,155,-0.04,156,-0.04,157,-0.04,158,-0.04,159,-0.04,160,-0.04,161,-0.04,162,-0.04,163,-0.04,164,-0.04,165,-0.04,166,-0.04,167,-0.04,168,-0.04,169,-0.04,170,-0.04,171,-0.04,172,-0.04,173,-0.04,174,-0.04,175,-0.04,176,-0.04,177,-0.04,178,-0.04,179,-0.04,180,-0.04,181,-0.04,182,-0.04,183,-0.04,184,-0.04,185,-0.04,186,-0.04,187,-0.04,188,-0.04,189,-0.04,190,-0.04,191,-0.04,192,-0.04,193,-0.04,194,-0.04,195,-0.04,196,-0.04,197,-0.04,198,1.0,199,1.0,200,1.0,201,1.0,202,1.0,203,1.0,204,1.0,205,1.0,206,1.0,207,1.0,208,1.0,209,1.0,210,1.0,211,1.0,212,1.0,213,1.0,214,1.0,215,1.0,216,1.0,217,1.0,218,1.0,219,1.0,220,1.0,221,1.0,222,1.0,223,1.0,224,1.0,225,1.0,226,1.0,227,1.0,228,1.0,229,1.0,230,1.0,231,1.0,232,1.0,233,1.0,234,1.0,235,1.0,236,1.0,237,1.0,238,1.0,239,1.0,240,1.0,241,1.0,242,1.0,243,1.0,244,1.0,245,1.0,246,1.0,247,1.0,248,1.0,249,1.0,250,1.0,251,1.0,252,1.0,253,1.0,254,1.0,255,1.0,256,1.0,257,1.0,258,1.0,259,1.0,260,1.0,261,1.0,262,1.0,263,1.0,264,-0.04,265,-0.04,266,-0.04,267,-0.04,268,-0.04,269,-0.04,270,-0.04,271,-0.04,272,-0.04,273,-0.04,274,-0.04,275,-0.04,276,-0.04,277,-0.04,278,-0.04,279,-0.04,280,-0.04,281,-0.04,282,-0.04,283,-0.04,284,-0.04,285,-0.04,286,-0.04,287,-0.04,288,-0.04,289,-0.04,290,-0.04,291,-0.04,292,-0.04,293,-0.04,294,-0.04,295,-0.04,296,-0.04,297,-0.04,298,-0.04,299,-0.04,300,-0.04,301,-0.04,302,-0.04,303,-0.04,304,-0.04,305,-0.04,306,-0.04,307,-0.04,308,-0.04,309,-0.04,310,-0.04,311,-0.04,312,-0.04,313,-0.04,314,-0.04,315,-0.04,316,-0.04,317,-0.04,318,-0.04,319,-0.04,320,-0.04,321,-0.04,322,-0.04,323,-0.04,324,-0.04,325,-0.04,326,-0.04,327,-0.04,328,-0.04,329,-0.04,330,-0.04,331,-0.04,332,-0.04,333,-0.04,334,-0.04,335,-0.04,336,-0.04,337,-0.04,338,-0.04,339,-0.04,340,-0.04,341,-0.04,342,-0.04,343,-0.04,344,-0.04,345,-0.04,346,-0.04,347,-0.04,348,-0.04,349,-0.04,350,-0.04,351,-0.04,352,-0.04,353,-0.04,354,-0.04,355,-0.04,356,-0.04,357,-0.04,358,-0.04,359,-0.04,360,-0.04,361,-0.04,362,-0.04,363,-0.04,364,-0.04,365,-0.04,366,-0.04,367,-0.04,368,-0.04,369,-0.04,370,-0.04,371,-0.04,372,-0.04,373,-0.04,374,-0.04,375,-0.04,376,-0.04,377,-0.04,378,-0.04,379,-0.04,380,-0.04,381,-0.04,382,-0.04,383,-0.04,384,-0.04,385,-0.04,386,-0.04,387,-0.04,388,-0.04,389,-0.04,390,-0.04,391,-0.04,392,-0.04,393,-0.04,394,-0.04,395,-0.04,396,-1.0,397,-1.0,398,-1.0,399,-1.0,400,-1.0,401,-1.0,402,-1.0,403,-1.0,404,-1.0,405,-1.0,406,-1.0,407,-1.0,408,-1.0,409,-1.0,410,-1.0,411,-1.0,412,-1.0,413,-1.0,414,-1.0,415,-1.0,416,-1.0,417,-1.0,418,-1.0,419,-1.0,420,-1.0,421,-1.0,422,-1.0,423,-1.0,424,-1.0,425,-1.0,426,-1.0,427,-1.0,428,-1.0,429,-1.0,430,-1.0,431,-1.0,432,-1.0,433,-1.0,434,-1.0,435,-1.0,436,-1.0,437,-1.0,438,-1.0,439,-1.0,440,-1.0,441,-1.0,442,-1.0,443,-1.0,444,-1.0,445,-1.0,446,-1.0,447,-1.0,448,-1.0,449,-1.0,450,-1.0,451,-1.0,452,-1.0,453,-1.0,454,-1.0,455,-1.0,456,-1.0,457,-1.0,458,-1.0,459,-1.0,460,-1.0,461,-1.0,462,-0.04,463,-0.04,464,-0.04,465,-0.04,466,-0.04,467,-0.04,468,-0.04,469,-0.04,470,-0.04,471,-0.04,472,-0.04,473,-0.04,474,-0.04,475,-0.04,476,-0.04,477,-0.04,478,-0.04,479,-0.04,480,-0.04,481,-0.04,482,-0.04,483,-0.04,484,-0.04,485,-0.04,486,-0.04,487,-0.04,488,-0.04,489,-0.04,490,-0.04,491,-0.04,492,-0.04,493,-0.04,494,-0.04,495,-0.04,496,-0.04,497,-0.04,498,-0.04,499,-0.04,500,-0.04,501,-0.04,502,-0.04,503,-0.04,504,-0.04,505,-0.04,506,-0.04,507,-0.04,508,-0.04,509,-0.04,510,-0.04,511,-0.04,512,-0.04,513,-0.04,514,-0.04,515,-0.04,516,-0.04,517,-0.04,518,-0.04,519,-0.04,520,-0.04,521,-0.04,522,-0.04,523,-0.04,524,-0.04,525,-0.04,526,-0.04,527,-0.04,528,-0.04,529,-0.04,530,-0.04,531,-0.04,532,-0.04,533,-0.04,534,-0.04,535,-0.04,536,-0.04,537,-0.04,538,-0.04,539,-0.04,540,-0.04,541,-0.04,542,-0.04,543,-0.04,544,-0.04,545,-0.04,546,-0.04,547,-0.04,548,-0.04,549,-0.04,550,-0.04,551,-0.04,552,-0.04,553,-0.04,554,-0.04,555,-0.04,556,-0.04,557,-0.04,558,-0.04,559,-0.04,560,-0.04,561,-0.04,562,-0.04,563,-0.04,564,-0.04,565,-0.04,566,-0.04,567,-0.04,568,-0.04,569,-0.04,570,-0.04,571,-0.04,572,-0.04,573,-0.04,574,-0.04,575,-0.04,576,-0.04,577,-0.04,578,-0.04,579,-0.04,580,-0.04,581,-0.04,582,-0.04,583,-0.04,584,-0.04,585,-0.04,586,-0.04,587,-0.04,588,-0.04,589,-0.04,590,-0.04,591,-0.04,592,-0.04,593,-0.04,594,-0.04,595,-0.04,596,-0.04,597,-0.04,598,-0.04,599,-0.04,600,-0.04,601,-0.04,602,-0.04,603,-0.04,604,-0.04,605,-0.04,606,-0.04,607,-0.04,608,-0.04,609,-0.04,610,-0.04,611,-0.04,612,-0.04,613,-0.04,614,-0.04,615,-0.04,616,-0.04,617,-0.04,618,-0.04,619,-0.04,620,-0.04,621,-0.04,622,-0.04,623,-0.04,624,-0.04,625,-0.04,626,-0.04,627,-0.04,628,-0.04,629,-0.04,630,-0.04,631,-0.04,632,-0.04,633,-0.04,634,-0.04,635,-0.04,636,-0.04,637,-0.04,638,-0.04,639,-0.04,640,-0.04,641,-0.04,642,-0.04,643,-0.04,644,-0.04,645,-0.04,646,-0.04,647,-0.04,648,-0.04,649,-0.04,650,-0.04,651,-0.04,652,-0.04,653,-0.04,654,-0.04,655,-0.04,656,-0.04,657,-0.04,658,-0.04,659,-0.04,660,-0.04,661,-0.04,662,-0.04,663,-0.04,664,-0.04,665,-0.04,666,-0.04,667,-0.04,668,-0.04,669,-0.04,670,-0.04,671,-0.04,672,-0.04,673,-0.04,674,-0.04,675,-0.04,676,-0.04,677,-0.04,678,-0.04,679,-0.04,680,-0.04,681,-0.04,682,-0.04,683,-0.04,684,-0.04,685,-0.04,686,-0.04,687,-0.04,688,-0.04,689,-0.04,690,-0.04,691,-0.04,692,-0.04,693,-0.04,694,-0.04,695,-0.04,696,-0.04,697,-0.04,698,-0.04,699,-0.04,700,-0.04,701,-0.04,702,-0.04,703,-0.04,704,-0.04,705,-0.04,706,-0.04,707,-0.04,708,-0.04,709,-0.04,710,-0.04,711,-0.04,712,-0.04,713,-0.04,714,-0.04,715,-0.04,716,-0.04,717,-0.04,718,-0.04,719,-0.04,720,-0.04,721,-0.04,722,-0.04,723,-0.04,724,-0.04,725,-0.04,726,-0.04,727,-0.04,728,-0.04,729,-0.04,730,-0.04,731,-0.04,732,-0.04,733,-0.04,734,-0.04,735,-0.04,736,-0.04,737,-0.04,738,-0.04,739,-0.04,740,-0.04,741,-0.04,742,-0.04,743,-0.04,744,-0.04,745,-0.04,746,-0.04,747,-0.04,748,-0.04,749,-0.04,750,-0.04,751,-0.04,752,-0.04,753,-0.04,754,-0.04,755,-0.04,756,-0.04,757,-0.04,758,-0.04,759,-0.04,760,-0.04,761,-0.04,762,-0.04,763,-0.04,764,-0.04,765,-0.04,766,-0.04,767,-0.04,768,-0.04,769,-0.04,770,-0.04,771,-0.04,772,-0.04,773,-0.04,774,-0.04,775,-0.04,776,-0.04,777,-0.04,778,-0.04,779,-0.04,780,-0.04,781,-0.04,782,-0.04,783,-0.04,784,-0.04,785,-0.04,786,-0.04,787,-0.04,788,-0.04,789,-0.04,790,-0.04,791,-0.04,792,-0.04,793,-0.04,794,-0.04,795,-0.04,796,-0.04,797,-0.04,798,-0.04,799,-0.04,800,-0.04,801,-0.04,802,-0.04,803,-0.04,804,-0.04,805,-0.04,806,-0.04,807,-0.04,808,-0.04,809,-0.04,810,-0.04,811,-0.04,812,-0.04,813,-0.04,814,-0.04,815,-0.04,816,-0.04,817,-0.04,818,-0.04,819,-0.04,820,-0.04,821,-0.04,822,-0.04,823,-0.04,824,-0.04,825,-0.04,826,-0.04,827,-0.04,828,-0.04,829,-0.04,830,-0.04,831,-0.04,832,-0.04,833,-0.04,834,-0.04,835,-0.04,836,-0.04,837,-0.04,838,-0.04,839,-0.04,840,-0.04,841,-0.04,842,-0.04,843,-0.04,844,-0.04,845,-0.04,846,-0.04,847,-0.04,848,-0.04,849,-0.04,850,-0.04,851,-0.04,852,-0.04,853,-0.04,854,-0.04,855,-0.04,856,-0.04,857,-0.04,858,-0.04,859,-0.04,860,-0.04,861,-0.04,862,-0.04,863,-0.04,864,-0.04,865,-0.04,866,-0.04,867,-0.04,868,-0.04,869,-0.04,870,-0.04,871,-0.04,872,-0.04,873,-0.04,874,-0.04,875,-0.04,876,-0.04,877,-0.04,878,-0.04,879,-0.04,880,-0.04,881,-0.04,882,-0.04,883,-0.04,884,-0.04,885,-0.04,886,-0.04,887,-0.04,888,-0.04,889,-0.04,890,-0.04,891,-0.04,892,-0.04,893,-0.04,894,-0.04,895,-0.04,896,-0.04,897,-0.04,898,-0.04,899,-0.04,900,-0.04,901,-0.04,902,-0.04,903,-0.04,904,-0.04,905,-0.04,906,-0.04,907,-0.04,908,-0.04,909,-0.04,910,-0.04,911,-0.04,912,-0.04,913,-0.04,914,-0.04,915,-0.04,916,-0.04,917,-0.04,918,-0.04,919,-0.04,920,-0.04,921,-0.04,922,-0.04,923,-0.04,924,1.0,925,1.0,926,1.0,927,1.0,928,1.0,929,1.0,930,1.0,931,1.0,932,1.0,933,1.0,934,1.0,935,1.0,936,1.0,937,1.0,938,1.0,939,1.0,940,1.0,941,1.0,942,1.0,943,1.0,944,1.0,945,1.0,946,1.0,947,1.0,948,1.0,949,1.0,950,1.0,951,1.0,952,1.0,953,1.0,954,1.0,955,1.0,956,1.0,957,1.0,958,1.0,959,1.0,960,1.0,961,1.0,962,1.0,963,1.0,964,1.0,965,1.0,966,1.0,967,1.0,968,1.0,969,1.0,970,1.0,971,1.0,972,1.0,973,1.0,974,1.0,975,1.0,976,1.0,977,1.0,978,1.0,979,1.0,980,1.0,981,1.0,982,1.0,983,1.0,984,1.0,985,1.0,986,1.0,987,1.0,988,1.0,989,1.0,990,-0.04,991,-0.04,992,-0.04,993,-0.04,994,-0.04,995,-0.04,996,-0.04,997,-0.04,998,-0.04,999,-0.04,1000,-0.04,1001,-0.04,1002,-0.04,1003,-0.04,1004,-0.04,1005,-0.04,1006,-0.04,1007,-0.04,1008,-0.04,1009,-0.04,1010,-0.04,1011,-0.04,1012,-0.04,1013,-0.04,1014,-0.04,1015,-0.04,1016,-0.04,1017,-0.04,1018,-0.04,1019,-0.04,1020,-0.04,1021,-0.04,1022,-0.04,1023,-0.04,1024,-0.04,1025,-0.04,1026,-0.04,1027,-0.04,1028,-0.04,1029,-0.04,1030,-0.04,1031,-0.04,1032,-0.04,1033,-0.04,1034,-0.04,1035,-0.04,1036,-0.04,1037,-0.04,1038,-0.04,1039,-0.04,1040,-0.04,1041,-0.04,1042,-0.04,1043,-0.04,1044,-0.04,1045,-0.04,1046,-0.04,1047,-0.04,1048,-0.04,1049,-0.04,1050,-0.04,1051,-0.04,1052,-0.04,1053,-0.04,1054,-0.04,1055,-0.04,1056,-0.04,1057,-0.04,1058,-0.04,1059,-0.04,1060,-0.04,1061,-0.04,1062,-0.04,1063,-0.04,1064,-0.04,1065,-0.04,1066,-0.04,1067,-0.04,1068,-0.04,1069,-0.04,1070,-0.04,1071,-0.04,1072,-0.04,1073,-0.04,1074,-0.04,1075,-0.04,1076,-0.04,1077,-0.04,1078,-0.04,1079,-0.04,1080,-0.04,1081,-0.04,1082,-0.04,1083,-0.04,1084,-0.04,1085,-0.04,1086,-0.04,1087,-0.04,1088,-0.04,1089,-0.04,1090,-0.04,1091,-0.04,1092,-0.04,1093,-0.04,1094,-0.04,1095,-0.04,1096,-0.04,1097,-0.04,1098,-0.04,1099,-0.04,1100,-0.04,1101,-0.04,1102,-0.04,1103,-0.04,1104,-0.04,1105,-0.04,1106,-0.04,1107,-0.04,1108,-0.04,1109,-0.04,1110,-0.04,1111,-0.04,1112,-0.04,1113,-0.04,1114,-0.04,1115,-0.04,1116,-0.04,1117,-0.04,1118,-0.04,1119,-0.04,1120,-0.04,1121,-0.04,1122,-1.0,1123,-1.0,1124,-1.0,1125,-1.0,1126,-1.0,1127,-1.0,1128,-1.0,1129,-1.0,1130,-1.0,1131,-1.0,1132,-1.0,1133,-1.0,1134,-1.0,1135,-1.0,1136,-1.0,1137,-1.0,1138,-1.0,1139,-1.0,1140,-1.0,1141,-1.0,1142,-1.0,1143,-1.0,1144,-1.0,1145,-1.0,1146,-1.0,1147,-1.0,1148,-1.0,1149,-1.0,1150,-1.0,1151,-1.0,1152,-1.0,1153,-1.0,1154,-1.0,1155,-1.0,1156,-1.0,1157,-1.0,1158,-1.0,1159,-1.0,1160,-1.0,1161,-1.0,1162,-1.0,1163,-1.0,1164,-1.0,1165,-1.0,1166,-1.0,1167,-1.0,1168,-1.0,1169,-1.0,1170,-1.0,1171,-1.0,1172,-1.0,1173,-1.0,1174,-1.0,1175,-1.0,1176,-1.0,1177,-1.0,1178,-1.0,1179,-1.0,1180,-1.0,1181,-1.0,1182,-1.0,1183,-1.0,1184,-1.0,1185,-1.0,1186,-1.0,1187,-1.0,1188,-0.04,1189,-0.04,1190,-0.04,1191,-0.04,1192,-0.04,1193,-0.04,1194,-0.04,1195,-0.04,1196,-0.04,1197,-0.04,1198,-0.04,1199,-0.04,1200,-0.04,1201,-0.04,1202,-0.04,1203,-0.04,1204,-0.04,1205,-0.04,1206,-0.04,1207,-0.04,1208,-0.04,1209,-0.04,1210,-0.04,1211,-0.04,1212,-0.04,1213,-0.04,1214,-0.04,1215,-0.04,1216,-0.04,1217,-0.04,1218,-0.04,1219,-0.04,1220,-0.04,1221,-0.04,1222,-0.04,1223,-0.04,1224,-0.04,1225,-0.04,1226,-0.04,1227,-0.04,1228,-0.04,1229,-0.04,1230,-0.04,1231,-0.04,1232,-0.04,1233,-0.04,1234,-0.04,1235,-0.04,1236,-0.04,1237,-0.04,1238,-0.04,1239,-0.04,1240,-0.04,1241,-0.04,1242,-0.04,1243,-0.04,1244,-0.04,1245,-0.04,1246,-0.04,1247,-0.04,1248,-0.04,1249,-0.04,1250,-0.04,1251,-0.04,1252,-0.04,1253,-0.04,1254,-0.04,1255,-0.04,1256,-0.04,1257,-0.04,1258,-0.04,1259,-0.04,1260,-0.04,1261,-0.04,1262,-0.04,1263,-0.04,1264,-0.04,1265,-0.04,1266,-0.04,1267,-0.04,1268,-0.04,1269,-0.04,1270,-0.04,1271,-0.04,1272,-0.04,1273,-0.04,1274,-0.04,1275,-0.04,1276,-0.04,1277,-0.04,1278,-0.04,1279,-0.04,1280,-0.04,1281,-0.04,1282,-0.04,1283,-0.04,1284,-0.04,1285,-0.04,1286,-0.04,1287,-0.04,1288,-0.04,1289,-0.04,1290,-0.04,1291,-0.04,1292,-0.04,1293,-0.04,1294,-0.04,1295,-0.04,1296,-0.04,1297,-0.04,1298,-0.04,1299,-0.04,1300,-0.04,1301,-0.04,1302,-0.04,1303,-0.04,1304,-0.04,1305,-0.04,1306,-0.04,1307,-0.04,1308,-0.04,1309,-0.04,1310,-0.04,1311,-0.04,1312,-0.04,1313,-0.04,1314,-0.04,1315,-0.04,1316,-0.04,1317,-0.04,1318,-0.04,1319,-0.04,1320,-0.04,1321,-0.04,1322,-0.04,1323,-0.04,1324,-0.04,1325,-0.04,1326,-0.04,1327,-0.04,1328,-0.04,1329,-0.04,1330,-0.04,1331,-0.04,1332,-0.04,1333,-0.04,1334,-0.04,1335,-0.04,1336,-0.04,1337,-0.04,1338,-0.04,1339,-0.04,1340,-0.04,1341,-0.04,1342,-0.04,1343,-0.04,1344,-0.04,1345,-0.04,1346,-0.04,1347,-0.04,1348,-0.04,1349,-0.04,1350,-0.04,1351,-0.04,1352,-0.04,1353,-0.04,1354,-0.04,1355,-0.04,1356,-0.04,1357,-0.04,1358,-0.04,1359,-0.04,1360,-0.04,1361,-0.04,1362,-0.04,1363,-0.04,1364,-0.04,1365,-0.04,1366,-0.04,1367,-0.04,1368,-0.04,1369,-0.04,1370,-0.04,1371,-0.04,1372,-0.04,1373,-0.04,1374,-0.04,1375,-0.04,1376,-0.04,1377,-0.04,1378,-0.04,1379,-0.04,1380,-0.04,1381,-0.04,1382,-0.04,1383,-0.04,1384,-0.04,1385,-0.04,1386,-0.04,1387,-0.04,1388,-0.04,1389,-0.04,1390,-0.04,1391,-0.04,1392,-0.04,1393,-0.04,1394,-0.04,1395,-0.04,1396,-0.04,1397,-0.04,1398,-0.04,1399,-0.04,1400,-0.04,1401,-0.04,1402,-0.04,1403,-0.04,1404,-0.04,1405,-0.04,1406,-0.04,1407,-0.04,1408,-0.04,1409,-0.04,1410,-0.04,1411,-0.04,1412,-0.04,1413,-0.04,1414,-0.04,1415,-0.04,1416,-0.04,1417,-0.04,1418,-0.04,1419,-0.04,1420,-0.04,1421,-0.04,1422,-0.04,1423,-0.04,1424,-0.04,1425,-0.04,1426,-0.04,1427,-0.04,1428,-0.04,1429,-0.04,1430,-0.04,1431,-0.04,1432,-0.04,1433,-0.04,1434,-0.04,1435,-0.04,1436,-0.04,1437,-0.04,1438,-0.04,1439,-0.04,1440,-0.04,1441,-0.04,1442,-0.04,1443,-0.04,1444,-0.04,1445,-0.04,1446,-0.04,1447,-0.04,1448,-0.04,1449,-0.04,1450,-0.04,1451,-0.04,1452,-0.04,1453,-0.04,1454,-0.04,1455,-0.04,1456,-0.04,1457,-0.04,1458,-0.04,1459,-0.04,1460,-0.04,1461,-0.04,1462,-0.04,1463,-0.04,1464,-0.04,1465,-0.04,1466,-0.04,1467,-0.04,1468,-0.04,1469,-0.04,1470,-0.04,1471,-0.04,1472,-0.04,1473,-0.04,1474,-0.04,1475,-0.04,1476,-0.04,1477,-0.04,1478,-0.04,1479,-0.04,1480,-0.04,1481,-0.04,1482,-0.04,1483,-0.04,1484,-0.04,1485,-0.04,1486,-0.04,1487,-0.04,1488,-0.04,1489,-0.04,1490,-0.04,1491,-0.04,1492,-0.04,1493,-0.04,1494,-0.04,1495,-0.04,1496,-0.04,1497,-0.04,1498,-0.04,1499,-0.04,1500,-0.04,1501,-0.04,1502,-0.04,1503,-0.04,1504,-0.04,1505,-0.04,1506,-0.04,1507,-0.04,1508,-0.04,1509,-0.04,1510,-0.04,1511,-0.04,1512,-0.04,1513,-0.04,1514,-0.04,1515,-0.04,1516,-0.04,1517,-0.04,1518,-0.04,1519,-0.04,1520,-0.04,1521,-0.04,1522,-0.04,1523,-0.04,1524,-0.04,1525,-0.04,1526,-0.04,1527,-0.04,1528,-0.04,1529,-0.04,1530,-0.04,1531,-0.04,1532,-0.04,1533,-0.04,1534,-0.04,1535,-0.04,1536,-0.04,1537,-0.04,1538,-0.04,1539,-0.04,1540,-0.04,1541,-0.04,1542,-0.04,1543,-0.04,1544,-0.04,1545,-0.04,1546,-0.04,1547,-0.04,1548,-0.04,1549,-0.04,1550,-0.04,1551,-0.04,1552,-0.04,1553,-0.04,1554,-0.04,1555,-0.04,1556,-0.04,1557,-0.04,1558,-0.04,1559,-0.04,1560,-0.04,1561,-0.04,1562,-0.04,1563,-0.04,1564,-0.04,1565,-0.04,1566,-0.04,1567,-0.04,1568,-0.04,1569,-0.04,1570,-0.04,1571,-0.04,1572,-0.04,1573,-0.04,1574,-0.04,1575,-0.04,1576,-0.04,1577,-0.04,1578,-0.04,1579,-0.04,1580,-0.04,1581,-0.04,1582,-0.04,1583,-0.04,1584,-0.04,1585,-0.04,1586,-0.04,1587,-0.04,1588,-0.04,1589,-0.04,1590,-0.04,1591,-0.04,1592,-0.04,1593,-0.04,1594,-0.04,1595,-0.04,1596,-0.04,1597,-0.04,1598,-0.04,1599,-0.04,1600,-0.04,1601,-0.04,1602,-0.04,1603,-0.04,1604,-0.04,1605,-0.04,1606,-0.04,1607,-0.04,1608,-0.04,1609,-0.04,1610,-0.04,1611,-0.04,1612,-0.04,1613,-0.04,1614,-0.04,1615,-0.04,1616,-0.04,1617,-0.04,1618,-0.04,1619,-0.04,1620,-0.04,1621,-0.04,1622,-0.04,1623,-0.04,1624,-0.04,1625,-0.04,1626,-0.04,1627,-0.04,1628,-0.04,1629,-0.04,1630,-0.04,1631,-0.04,1632,-0.04,1633,-0.04,1634,-0.04,1635,-0.04,1636,-0.04,1637,-0.04,1638,-0.04,1639,-0.04,1640,-0.04,1641,-0.04,1642,-0.04,1643,-0.04,1644,-0.04,1645,-0.04,1646,-0.04,1647,-0.04,1648,-0.04,1649,-0.04,1650,1.0,1651,1.0,1652,1.0,1653,1.0,1654,1.0,1655,1.0,1656,1.0,1657,1.0,1658,1.0,1659,1.0,1660,1.0,1661,1.0,1662,1.0,1663,1.0,1664,1.0,1665,1.0,1666,1.0,1667,1.0,1668,1.0,1669,1.0,1670,1.0,1671,1.0,1672,1.0,1673,1.0,1674,1.0,1675,1.0,1676,1.0,1677,1.0,1678,1.0,1679,1.0,1680,1.0,1681,1.0,1682,1.0,1683,1.0,1684,1.0,1685,1.0,1686,1.0,1687,1.0,1688,1.0,1689,1.0,1690,1.0,1691,1.0,1692,1.0,1693,1.0,1694,1.0,1695,1.0,1696,1.0,1697,1.0,1698,1.0,1699,1.0,1700,1.0,1701,1.0,1702,1.0,1703,1.0,1704,1.0,1705,1.0,1706,1.0,1707,1.0,1708,1.0,1709,1.0,1710,1.0,1711,1.0,1712,1.0,1713,1.0,1714,1.0,1715,1.0,1716,-0.04,1717,-0.04,1718,-0.04,1719,-0.04,1720,-0.04,1721,-0.04,1722,-0.04,1723,-0.04,1724,-0.04,1725,-0.04,1726,-0.04,1727,-0.04,1728,-0.04,1729,-0.04,1730,-0.04,1731,-0.04,1732,-0.04,1733,-0.04,1734,-0.04,1735,-0.04,1736,-0.04,1737,-0.04,1738,-0.04,1739,-0.04,1740,-0.04,1741,-0.04,1742,-0.04,1743,-0.04,1744,-0.04,1745,-0.04,1746,-0.04,1747,-0.04,1748,-0.04,1749,-0.04,1750,-0.04,1751,-0.04,1752,-0.04,1753,-0.04,1754,-0.04,1755,-0.04,1756,-0.04,1757,-0.04,1758,-0.04,1759,-0.04,1760,-0.04,1761,-0.04,1762,-0.04,1763,-0.04,1764,-0.04,1765,-0.04,1766,-0.04,1767,-0.04,1768,-0.04,1769,-0.04,1770,-0.04,1771,-0.04,1772,-0.04,1773,-0.04,1774,-0.04,1775,-0.04,1776,-0.04,1777,-0.04,1778,-0.04,1779,-0.04,1780,-0.04,1781,-0.04,1782,-0.04,1783,-0.04,1784,-0.04,1785,-0.04,1786,-0.04,1787,-0.04,1788,-0.04,1789,-0.04,1790,-0.04,1791,-0.04,1792,-0.04,1793,-0.04,1794,-0.04,1795,-0.04,1796,-0.04,1797,-0.04,1798,-0.04,1799,-0.04,1800,-0.04,1801,-0.04,1802,-0.04,1803,-0.04,1804,-0.04,1805,-0.04,1806,-0.04,1807,-0.04,1808,-0.04,1809,-0.04,1810,-0.04,1811,-0.04,1812,-0.04,1813,-0.04,1814,-0.04,1815,-0.04,1816,-0.04,1817,-0.04,1818,-0.04,1819,-0.04,1820,-0.04,1821,-0.04,1822,-0.04,1823,-0.04,1824,-0.04,1825,-0.04,1826,-0.04,1827,-0.04,1828,-0.04,1829,-0.04,1830,-0.04,1831,-0.04,1832,-0.04,1833,-0.04,1834,-0.04,1835,-0.04,1836,-0.04,1837,-0.04,1838,-0.04,1839,-0.04,1840,-0.04,1841,-0.04,1842,-0.04,1843,-0.04,1844,-0.04,1845,-0.04,1846,-0.04,1847,-0.04,1848,-1.0,1849,-1.0,1850,-1.0,1851,-1.0,1852,-1.0,1853,-1.0,1854,-1.0,1855,-1.0,1856,-1.0,1857,-1.0,1858,-1.0,1859,-1.0,1860,-1.0,1861,-1.0,1862,-1.0,1863,-1.0,1864,-1.0,1865,-1.0,1866,-1.0,1867,-1.0,1868,-1.0,1869,-1.0,1870,-1.0,1871,-1.0,1872,-1.0,1873,-1.0,1874,-1.0,1875,-1.0,1876,-1.0,1877,-1.0,1878,-1.0,1879,-1.0,1880,-1.0,1881,-1.0,1882,-1.0,1883,-1.0,1884,-1.0,1885,-1.0,1886,-1.0,1887,-1.0,1888,-1.0,1889,-1.0,1890,-1.0,1891,-1.0,1892,-1.0,1893,-1.0,1894,-1.0,1895,-1.0,1896,-1.0,1897,-1.0,1898,-1.0,1899,-1.0,1900,-1.0,1901,-1.0,1902,-1.0,1903,-1.0,1904,-1.0,1905,-1.0,1906,-1.0,1907,-1.0,1908,-1.0,1909,-1.0,1910,-1.0,1911,-1.0,1912,-1.0,1913,-1.0,1914,-0.04,1915,-0.04,1916,-0.04,1917,-0.04,1918,-0.04,1919,-0.04,1920,-0.04,1921,-0.04,1922,-0.04,1923,-0.04,1924,-0.04,1925,-0.04,1926,-0.04,1927,-0.04,1928,-0.04,1929,-0.04,1930,-0.04,1931,-0.04,1932,-0.04,1933,-0.04,1934,-0.04,1935,-0.04,1936,-0.04,1937,-0.04,1938,-0.04,1939,-0.04,1940,-0.04,1941,-0.04,1942,-0.04,1943,-0.04,1944,-0.04,1945,-0.04,1946,-0.04,1947,-0.04,1948,-0.04,1949,-0.04,1950,-0.04,1951,-0.04,1952,-0.04,1953,-0.04,1954,-0.04,1955,-0.04,1956,-0.04,1957,-0.04,1958,-0.04,1959,-0.04,1960,-0.04,1961,-0.04,1962,-0.04,1963,-0.04,1964,-0.04,1965,-0.04,1966,-0.04,1967,-0.04,1968,-0.04,1969,-0.04,1970,-0.04,1971,-0.04,1972,-0.04,1973,-0.04,1974,-0.04,1975,-0.04,1976,-0.04,1977,-0.04,1978,-0.04,1979,-0.04,1980,-0.04,1981,-0.04,1982,-0.04,1983,-0.04,1984,-0.04,1985,-0.04,1986,-0.04,1987,-0.04,1988,-0.04,1989,-0.04,1990,-0.04,1991,-0.04,1992,-0.04,1993,-0.04,1994,-0.04,1995,-0.04,1996,-0.04,1997,-0.04,1998,-0.04,1999,-0.04,2000,-0.04,2001,-0.04,2002,-0.04,2003,-0.04,2004,-0.04,2005,-0.04,2006,-0.04,2007,-0.04,2008,-0.04,2009,-0.04,2010,-0.04,2011,-0.04,2012,-0.04,2013,-0.04,2014,-0.04,2015,-0.04,2016,-0.04,2017,-0.04,2018,-0.04,2019,-0.04,2020,-0.04,2021,-0.04,2022,-0.04,2023,-0.04,2024,-0.04,2025,-0.04,2026,-0.04,2027,-0.04,2028,-0.04,2029,-0.04,2030,-0.04,2031,-0.04,2032,-0.04,2033,-0.04,2034,-0.04,2035,-0.04,2036,-0.04,2037,-0.04,2038,-0.04,2039,-0.04,2040,-0.04,2041,-0.04,2042,-0.04,2043,-0.04,2044,-0.04,2045,-0.04,2046,-0.04,2047,-0.04,2048,-0.04,2049,-0.04,2050,-0.04,2051,-0.04,2052,-0.04,2053,-0.04,2054,-0.04,2055,-0.04,2056,-0.04,2057,-0.04,2058,-0.04,2059,-0.04,2060,-0.04,2061,-0.04,2062,-0.04,2063,-0.04,2064,-0.04,2065,-0.04,2066,-0.04,2067,-0.04,2068,-0.04,2069,-0.04,2070,-0.04,2071,-0.04,2072,-0.04,2073,-0.04,2074,-0.04,2075,-0.04,2076,-0.04,2077,-0.04,2078,-0.04,2079,-0.04,2080,-0.04,2081,-0.04,2082,-0.04,2083,-0.04,2084,-0.04,2085,-0.04,2086,-0.04,2087,-0.04,2088,-0.04,2089,-0.04,2090,-0.04,2091,-0.04,2092,-0.04,2093,-0.04,2094,-0.04,2095,-0.04,2096,-0.04,2097,-0.04,2098,-0.04,2099,-0.04,2100,-0.04,2101,-0.04,2102,-0.04,2103,-0.04,2104,-0.04,2105,-0.04,2106,-0.04,2107,-0.04,2108,-0.04,2109,-0.04,2110,-0.04,2111,-0.04,2112,-0.04,2113,-0.04,2114,-0.04,2115,-0.04,2116,-0.04,2117,-0.04,2118,-0.04,2119,-0.04,2120,-0.04,2121,-0.04,2122,-0.04,2123,-0.04,2124,-0.04,2125,-0.04,2126,-0.04,2127,-0.04,2128,-0.04,2129,-0.04,2130,-0.04,2131,-0.04,2132,-0.04,2133,-0.04,2134,-0.04,2135,-0.04,2136,-0.04,2137,-0.04,2138,-0.04,2139,-0.04,2140,-0.04,2141,-0.04,2142,-0.04,2143,-0.04,2144,-0.04,2145,-0.04,2146,-0.04,2147,-0.04,2148,-0.04,2149,-0.04,2150,-0.04,2151,-0.04,2152,-0.04,2153,-0.04,2154,-0.04,2155,-0.04,2156,-0.04,2157,-0.04,2158,-0.04,2159,-0.04,2160,-0.04,2161,-0.04,2162,-0.04,2163,-0.04,2164,-0.04,2165,-0.04,2166,-0.04,2167,-0.04,2168,-0.04,2169,-0.04,2170,-0.04,2171,-0.04,2172,-0.04,2173,-0.04,2174,-0.04,2175,-0.04,2176,-0.04,2177,-0.04,2178,-0.04,2179,-0.04,2180,-0.04,2181,-0.04,2182,-0.04,2183,-0.04,2184,-0.04,2185,-0.04,2186,-0.04,2187,-0.04,2188,-0.04,2189,-0.04,2190,-0.04,2191,-0.04,2192,-0.04,2193,-0.04,2194,-0.04,2195,-0.04,2196,-0.04,2197,-0.04,2198,-0.04,2199,-0.04,2200,-0.04,2201,-0.04,2202,-0.04,2203,-0.04,2204,-0.04,2205,-0.04,2206,-0.04,2207,-0.04,2208,-0.04,2209,-0.04,2210,-0.04,2211,-0.04,2212,-0.04,2213,-0.04,2214,-0.04,2215,-0.04,2216,-0.04,2217,-0.04,2218,-0.04,2219,-0.04,2220,-0.04,2221,-0.04,2222,-0.04,2223,-0.04,2224,-0.04,2225,-0.04,2226,-0.04,2227,-0.04,2228,-0.04,2229,-0.04,2230,-0.04,2231,-0.04,2232,-0.04,2233,-0.04,2234,-0.04,2235,-0.04,2236,-0.04,2237,-0.04,2238,-0.04,2239,-0.04,2240,-0.04,2241,-0.04,2242,-0.04,2243,-0.04,2244,-0.04,2245,-0.04,2246,-0.04,2247,-0.04,2248,-0.04,2249,-0.04,2250,-0.04,2251,-0.04,2252,-0.04,2253,-0.04,2254,-0.04,2255,-0.04,2256,-0.04,2257,-0.04,2258,-0.04,2259,-0.04,2260,-0.04,2261,-0.04,2262,-0.04,2263,-0.04,2264,-0.04,2265,-0.04,2266,-0.04,2267,-0.04,2268,-0.04,2269,-0.04,2270,-0.04,2271,-0.04,2272,-0.04,2273,-0.04,2274,-0.04,2275,-0.04,2276,-0.04,2277,-0.04,2278,-0.04,2279,-0.04,2280,-0.04,2281,-0.04,2282,-0.04,2283,-0.04,2284,-0.04,2285,-0.04,2286,-0.04,2287,-0.04,2288,-0.04,2289,-0.04,2290,-0.04,2291,-0.04,2292,-0.04,2293,-0.04,2294,-0.04,2295,-0.04,2296,-0.04,2297,-0.04,2298,-0.04,2299,-0.04,2300,-0.04,2301,-0.04,2302,-0.04,2303,-0.04,2304,-0.04,2305,-0.04,2306,-0.04,2307,-0.04,2308,-0.04,2309,-0.04,2310,-0.04,2311,-0.04,2312,-0.04,2313,-0.04,2314,-0.04,2315,-0.04,2316,-0.04,2317,-0.04,2318,-0.04,2319,-0.04,2320,-0.04,2321,-0.04,2322,-0.04,2323,-0.04,2324,-0.04,2325,-0.04,2326,-0.04,2327,-0.04,2328,-0.04,2329,-0.04,2330,-0.04,2331,-0.04,2332,-0.04,2333,-0.04,2334,-0.04,2335,-0.04,2336,-0.04,2337,-0.04,2338,-0.04,2339,-0.04,2340,-0.04,2341,-0.04,2342,-0.04,2343,-0.04,2344,-0.04,2345,-0.04,2346,-0.04,2347,-0.04,2348,-0.04,2349,-0.04,2350,-0.04,2351,-0.04,2352,-0.04,2353,-0.04,2354,-0.04,2355,-0.04,2356,-0.04,2357,-0.04,2358,-0.04,2359,-0.04,2360,-0.04,2361,-0.04,2362,-0.04,2363,-0.04,2364,-0.04,2365,-0.04,2366,-0.04,2367,-0.04,2368,-0.04,2369,-0.04,2370,-0.04,2371,-0.04,2372,-0.04,2373,-0.04,2374,-0.04,2375,-0.04,2376,1.0,2377,1.0,2378,1.0,2379,1.0,2380,1.0,2381,1.0,2382,1.0,2383,1.0,2384,1.0,2385,1.0,2386,1.0,2387,1.0,2388,1.0,2389,1.0,2390,1.0,2391,1.0,2392,1.0,2393,1.0,2394,1.0,2395,1.0,2396,1.0,2397,1.0,2398,1.0,2399,1.0,2400,1.0,2401,1.0,2402,1.0,2403,1.0,2404,1.0,2405,1.0,2406,1.0,2407,1.0,2408,1.0,2409,1.0,2410,1.0,2411,1.0,2412,1.0,2413,1.0,2414,1.0,2415,1.0,2416,1.0,2417,1.0,2418,1.0,2419,1.0,2420,1.0,2421,1.0,2422,1.0,2423,1.0,2424,1.0,2425,1.0,2426,1.0,2427,1.0,2428,1.0,2429,1.0,2430,1.0,2431,1.0,2432,1.0,2433,1.0,2434,1.0,2435,1.0,2436,1.0,2437,1.0,2438,1.0,2439,1.0,2440,1.0,2441,1.0,2442,-0.04,2443,-0.04,2444,-0.04,2445,-0.04,2446,-0.04,2447,-0.04,2448,-0.04,2449,-0.04,2450,-0.04,2451,-0.04,2452,-0.04,2453,-0.04,2454,-0.04,2455,-0.04,2456,-0.04,2457,-0.04,2458,-0.04,2459,-0.04,2460,-0.04,2461,-0.04,2462,-0.04,2463,-0.04,2464,-0.04,2465,-0.04,2466,-0.04,2467,-0.04,2468,-0.04,2469,-0.04,2470,-0.04,2471,-0.04,2472,-0.04,2473,-0.04,2474,-0.04,2475,-0.04,2476,-0.04,2477,-0.04,2478,-0.04,2479,-0.04,2480,-0.04,2481,-0.04,2482,-0.04,2483,-0.04,2484,-0.04,2485,-0.04,2486,-0.04,2487,-0.04,2488,-0.04,2489,-0.04,2490,-0.04,2491,-0.04,2492,-0.04,2493,-0.04,2494,-0.04,2495,-0.04,2496,-0.04,2497,-0.04,2498,-0.04,2499,-0.04,2500,-0.04,2501,-0.04,2502,-0.04,2503,-0.04,2504,-0.04,2505,-0.04,2506,-0.04,2507,-0.04,2508,-0.04,2509,-0.04,2510,-0.04,2511,-0.04,2512,-0.04,2513,-0.04,2514,-0.04,2515,-0.04,2516,-0.04,2517,-0.04,2518,-0.04,2519,-0.04,2520,-0.04,2521,-0.04,2522,-0.04,2523,-0.04,2524,-0.04,2525,-0.04,2526,-0.04,2527,-0.04,2528,-0.04,2529,-0.04,2530,-0.04,2531,-0.04,2532,-0.04,2533,-0.04,2534,-0.04,2535,-0.04,2536,-0.04,2537,-0.04,2538,-0.04,2539,-0.04,2540,-0.04,2541,-0.04,2542,-0.04,2543,-0.04,2544,-0.04,2545,-0.04,2546,-0.04,2547,-0.04,2548,-0.04,2549,-0.04,2550,-0.04,2551,-0.04,2552,-0.04,2553,-0.04,2554,-0.04,2555,-0.04,2556,-0.04,2557,-0.04,2558,-0.04,2559,-0.04,2560,-0.04,2561,-0.04,2562,-0.04,2563,-0.04,2564,-0.04,2565,-0.04,2566,-0.04,2567,-0.04,2568,-0.04,2569,-0.04,2570,-0.04,2571,-0.04,2572,-0.04,2573,-0.04,2574,-1.0,2575,-1.0,2576,-1.0,2577,-1.0,2578,-1.0,2579,-1.0,2580,-1.0,2581,-1.0,2582,-1.0,2583,-1.0,2584,-1.0,2585,-1.0,2586,-1.0,2587,-1.0,2588,-1.0,2589,-1.0,2590,-1.0,2591,-1.0,2592,-1.0,2593,-1.0,2594,-1.0,2595,-1.0,2596,-1.0,2597,-1.0,2598,-1.0,2599,-1.0,2600,-1.0,2601,-1.0,2602,-1.0,2603,-1.0,2604,-1.0,2605,-1.0,2606,-1.0,2607,-1.0,2608,-1.0,2609,-1.0,2610,-1.0,2611,-1.0,2612,-1.0,2613,-1.0,2614,-1.0,2615,-1.0,2616,-1.0,2617,-1.0,2618,-1.0,2619,-1.0,2620,-1.0,2621,-1.0,2622,-1.0,2623,-1.0,2624,-1.0,2625,-1.0,2626,-1.0,2627,-1.0,2628,-1.0,2629,-1.0,2630,-1.0,2631,-1.0,2632,-1.0,2633,-1.0,2634,-1.0,2635,-1.0,2636,-1.0,2637,-1.0,2638,-1.0,2639,-1.0,2640,-0.04,2641,-0.04,2642,-0.04,2643,-0.04,2644,-0.04,2645,-0.04,2646,-0.04,2647,-0.04,2648,-0.04,2649,-0.04,2650,-0.04,2651,-0.04,2652,-0.04,2653,-0.04,2654,-0.04,2655,-0.04,2656,-0.04,2657,-0.04,2658,-0.04,2659,-0.04,2660,-0.04,2661,-0.04,2662,-0.04,2663,-0.04,2664,-0.04,2665,-0.04,2666,-0.04,2667,-0.04,2668,-0.04,2669,-0.04,2670,-0.04,2671,-0.04,2672,-0.04,2673,-0.04,2674,-0.04,2675,-0.04,2676,-0.04,2677,-0.04,2678,-0.04,2679,-0.04,2680,-0.04,2681,-0.04,2682,-0.04,2683,-0.04,2684,-0.04,2685,-0.04,2686,-0.04,2687,-0.04,2688,-0.04,2689,-0.04,2690,-0.04,2691,-0.04,2692,-0.04,2693,-0.04,2694,-0.04,2695,-0.04,2696,-0.04,2697,-0.04,2698,-0.04,2699,-0.04,2700,-0.04,2701,-0.04,2702,-0.04,2703,-0.04,2704,-0.04,2705,-0.04,2706,-0.04,2707,-0.04,2708,-0.04,2709,-0.04,2710,-0.04,2711,-0.04,2712,-0.04,2713,-0.04,2714,-0.04,2715,-0.04,2716,-0.04,2717,-0.04,2718,-0.04,2719,-0.04,2720,-0.04,2721,-0.04,2722,-0.04,2723,-0.04,2724,-0.04,2725,-0.04,2726,-0.04,2727,-0.04,2728,-0.04,2729,-0.04,2730,-0.04,2731,-0.04,2732,-0.04,2733,-0.04,2734,-0.04,2735,-0.04,2736,-0.04,2737,-0.04,2738,-0.04,2739,-0.04,2740,-0.04,2741,-0.04,2742,-0.04,2743,-0.04,2744,-0.04,2745,-0.04,2746,-0.04,2747,-0.04,2748,-0.04,2749,-0.04,2750,-0.04,2751,-0.04,2752,-0.04,2753,-0.04,2754,-0.04,2755,-0.04,2756,-0.04,2757,-0.04,2758,-0.04,2759,-0.04,2760,-0.04,2761,-0.04,2762,-0.04,2763,-0.04,2764,-0.04,2765,-0.04,2766,-0.04,2767,-0.04,2768,-0.04,2769,-0.04,2770,-0.04,2771,-0.04,2772,-0.04,2773,-0.04,2774,-0.04,2775,-0.04,2776,-0.04,2777,-0.04,2778,-0.04,2779,-0.04,2780,-0.04,2781,-0.04,2782,-0.04,2783,-0.04,2784,-0.04,2785,-0.04,2786,-0.04,2787,-0.04,2788,-0.04,2789,-0.04,2790,-0.04,2791,-0.04,2792,-0.04,2793,-0.04,2794,-0.04,2795,-0.04,2796,-0.04,2797,-0.04,2798,-0.04,2799,-0.04,2800,-0.04,2801,-0.04,2802,-0.04,2803,-0.04,2804,-0.04,2805,-0.04,2806,-0.04,2807,-0.04,2808,-0.04,2809,-0.04,2810,-0.04,2811,-0.04,2812,-0.04,2813,-0.04,2814,-0.04,2815,-0.04,2816,-0.04,2817,-0.04,2818,-0.04,2819,-0.04,2820,-0.04,2821,-0.04,2822,-0.04,2823,-0.04,2824,-0.04,2825,-0.04,2826,-0.04,2827,-0.04,2828,-0.04,2829,-0.04,2830,-0.04,2831,-0.04,2832,-0.04,2833,-0.04,2834,-0.04,2835,-0.04,2836,-0.04,2837,-0.04,2838,-0.04,2839,-0.04,2840,-0.04,2841,-0.04,2842,-0.04,2843,-0.04,2844,-0.04,2845,-0.04,2846,-0.04,2847,-0.04,2848,-0.04,2849,-0.04,2850,-0.04,2851,-0.04,2852,-0.04,2853,-0.04,2854,-0.04,2855,-0.04,2856,-0.04,2857,-0.04,2858,-0.04,2859,-0.04,2860,-0.04,2861,-0.04,2862,-0.04,2863,-0.04,2864,-0.04,2865,-0.04,2866,-0.04,2867,-0.04,2868,-0.04,2869,-0.04,2870,-0.04,2871,-0.04,2872,-0.04,2873,-0.04,2874,-0.04,2875,-0.04,2876,-0.04,2877,-0.04,2878,-0.04,2879,-0.04,2880,-0.04,2881,-0.04,2882,-0.04,2883,-0.04,2884,-0.04,2885,-0.04,2886,-0.04,2887,-0.04,2888,-0.04,2889,-0.04,2890,-0.04,2891,-0.04,2892,-0.04,2893,-0.04,2894,-0.04,2895,-0.04,2896,-0.04,2897,-0.04,2898,-0.04,2899,-0.04,2900,-0.04,2901,-0.04,2902,-0.04,2903,-0.04}},
  {"bridge-repair",
"discount: 1.0\n"
"values: cost\n"
"states: \n"
"\tless-5\n"
"\tbetween-5-15\n"
"\tbetween-15-25\n"
"\tmore-25\n"
"\tfailed\n"
"actions:\n"
"no-repair-and-no-inspect\n"
"no-repair-and-visual-inspect\n"
"no-repair-and-ut-inspect\n"
"clean-paint-and-no-inspect\n"
"clean-paint-and-visual-inspect\n"
"clean-paint-and-ut-inspect\n"
"paint-strengthen-and-no-inspect\n"
"paint-strengthen-and-visual-inspect\n"
"paint-strengthen-and-ut-inspect\n"
"structural-repair-and-no-inspect\n"
"structural-repair-and-visual-inspect\n"
"structural-repair-and-ut-inspect\n"
"observations: 5\n"
"T: no-repair-and-no-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.00\t0.70\t0.17\t0.05\t0.08\n"
"0.00\t0.00\t0.75\t0.15\t0.10\n"
"0.00\t0.00\t0.00\t0.60\t0.40\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: no-repair-and-visual-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.00\t0.70\t0.17\t0.05\t0.08\n"
"0.00\t0.00\t0.75\t0.15\t0.10\n"
"0.00\t0.00\t0.00\t0.60\t0.40\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: no-repair-and-ut-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.00\t0.70\t0.17\t0.05\t0.08\n"
"0.00\t0.00\t0.75\t0.15\t0.10\n"
"0.00\t0.00\t0.00\t0.60\t0.40\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: clean-paint-and-no-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.00\t0.80\t0.10\t0.02\t0.08\n"
"0.00\t0.00\t0.80\t0.10\t0.10\n"
"0.00\t0.00\t0.00\t0.60\t0.40\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: clean-paint-and-visual-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.00\t0.80\t0.10\t0.02\t0.08\n"
"0.00\t0.00\t0.80\t0.10\t0.10\n"
"0.00\t0.00\t0.00\t0.60\t0.40\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: clean-paint-and-ut-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.00\t0.80\t0.10\t0.02\t0.08\n"
"0.00\t0.00\t0.80\t0.10\t0.10\n"
"0.00\t0.00\t0.00\t0.60\t0.40\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: paint-strengthen-and-no-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.19\t0.65\t0.08\t0.02\t0.06\n"
"0.10\t0.20\t0.56\t0.08\t0.06\n"
"0.00\t0.10\t0.25\t0.55\t0.10\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: paint-strengthen-and-visual-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.19\t0.65\t0.08\t0.02\t0.06\n"
"0.10\t0.20\t0.56\t0.08\t0.06\n"
"0.00\t0.10\t0.25\t0.55\t0.10\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: paint-strengthen-and-ut-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.19\t0.65\t0.08\t0.02\t0.06\n"
"0.10\t0.20\t0.56\t0.08\t0.06\n"
"0.00\t0.10\t0.25\t0.55\t0.10\n"
"0.00\t0.00\t0.00\t0.00\t1.00\n"
"T: structural-repair-and-no-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"T: structural-repair-and-visual-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"T: structural-repair-and-ut-inspect\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"0.80\t0.13\t0.02\t0.00\t0.05\n"
"O: no-repair-and-no-inspect\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"O: clean-paint-and-no-inspect\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"O: paint-strengthen-and-no-inspect\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"O: structural-repair-and-no-inspect\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"1.00\t0.00 0.00\t0.00 0.00\t\n"
"O: no-repair-and-visual-inspect\n"
"0.80 0.20\t0.00\t0.00 0.00\t\n"
"0.20\t0.60\t0.20\t0.00 0.00\t\n"
"0.05\t0.70\t0.25\t0.00 0.00\t\n"
"0.00\t0.30\t0.70\t0.00 0.00\t\n"
"0.00 0.00 1.00\t0.00 0.00\t\n"
"O: clean-paint-and-visual-inspect\n"
"0.80 0.20\t0.00\t0.00 0.00\t\n"
"0.20\t0.60\t0.20\t0.00 0.00\t\n"
"0.05\t0.70\t0.25\t0.00 0.00\t\n"
"0.00\t0.30\t0.70\t0.00 0.00\t\n"
"0.00 0.00 1.00\t0.00 0.00\t\n"
"O: paint-strengthen-and-visual-inspect\n"
"0.80 0.20\t0.00\t0.00 0.00\t\n"
"0.20\t0.60\t0.20\t0.00 0.00\t\n"
"0.05\t0.70\t0.25\t0.00 0.00\t\n"
"0.00\t0.30\t0.70\t0.00 0.00\t\n"
"0.00 0.00 1.00\t0.00 0.00\t\n"
"O: structural-repair-and-visual-inspect\n"
"0.80 0.20\t0.00\t0.00 0.00\t\n"
"0.20\t0.60\t0.20\t0.00 0.00\t\n"
"0.05\t0.70\t0.25\t0.00 0.00\t\n"
"0.00\t0.30\t0.70\t0.00 0.00\t\n"
"0.00 0.00 1.00\t0.00 0.00\t\n"
"O: no-repair-and-ut-inspect\n"
"0.90 0.10 0.00 0.00 0.00\n"
"0.05 0.90 0.05 0.00 0.00\n"
"0.00 0.05 0.90 0.05 0.00\n"
"0.00 0.00 0.05 0.90 0.05\n"
"0.00 0.00 0.00 0.00 1.00\n"
"O: clean-paint-and-ut-inspect\n"
"0.90 0.10 0.00 0.00 0.00\n"
"0.05 0.90 0.05 0.00 0.00\n"
"0.00 0.05 0.90 0.05 0.00\n"
"0.00 0.00 0.05 0.90 0.05\n"
"0.00 0.00 0.00 0.00 1.00\n"
"O: paint-strengthen-and-ut-inspect\n"
"0.90 0.10 0.00 0.00 0.00\n"
"0.05 0.90 0.05 0.00 0.00\n"
"0.00 0.05 0.90 0.05 0.00\n"
"0.00 0.00 0.05 0.90 0.05\n"
"0.00 0.00 0.00 0.00 1.00\n"
"O: structural-repair-and-ut-inspect\n"
"0.90 0.10 0.00 0.00 0.00\n"
"0.05 0.90 0.05 0.00 0.00\n"
"0.00 0.05 0.90 0.05 0.00\n"
"0.00 0.00 0.05 0.90 0.05\n"
"0.00 0.00 0.00 0.00 1.00\n"
"R: no-repair-and-no-inspect : less-5 : * : * 0\n"
"R: no-repair-and-no-inspect : between-5-15 : * : * 0\n"
"R: no-repair-and-no-inspect : between-15-25 : * : * 0\n"
"R: no-repair-and-no-inspect : more-25 : * : * 300\n"
"R: no-repair-and-no-inspect : failed : * : * 2000\n"
"R: no-repair-and-visual-inspect : less-5 : * : * 4\n"
"R: no-repair-and-visual-inspect : between-5-15 : * : * 4\n"
"R: no-repair-and-visual-inspect : between-15-25 : * : * 4\n"
"R: no-repair-and-visual-inspect : more-25 : * : * 304\n"
"R: no-repair-and-visual-inspect : failed : * : * 2004\n"
"R: no-repair-and-ut-inspect : less-5 : * : * 18\n"
"R: no-repair-and-ut-inspect : between-5-15 : * : * 18\n"
"R: no-repair-and-ut-inspect : between-15-25 : * : * 18\n"
"R: no-repair-and-ut-inspect : more-25 : * : * 318\n"
"R: no-repair-and-ut-inspect : failed : * : * 2018\n"
"R: clean-paint-and-no-inspect : less-5 : * : * 5\n"
"R: clean-paint-and-no-inspect : between-5-15 : * : * 8\n"
"R: clean-paint-and-no-inspect : between-15-25 : * : * 15\n"
"R: clean-paint-and-no-inspect : more-25 : * : * 320\n"
"R: clean-paint-and-no-inspect : failed : * : * 2050\n"
"R: clean-paint-and-visual-inspect : less-5 : * : * 9\n"
"R: clean-paint-and-visual-inspect : between-5-15 : * : * 12\n"
"R: clean-paint-and-visual-inspect : between-15-25 : * : * 19\n"
"R: clean-paint-and-visual-inspect : more-25 : * : * 324\n"
"R: clean-paint-and-visual-inspect : failed : * : * 2054\n"
"R: clean-paint-and-ut-inspect : less-5 : * : * 23\n"
"R: clean-paint-and-ut-inspect : between-5-15 : * : * 26\n"
"R: clean-paint-and-ut-inspect : between-15-25 : * : * 33\n"
"R: clean-paint-and-ut-inspect : more-25 : * : * 338\n"
"R: clean-paint-and-ut-inspect : failed : * : * 2068\n"
"R: paint-strengthen-and-no-inspect : less-5 : * : * 25\n"
"R: paint-strengthen-and-no-inspect : between-5-15 : * : * 80\n"
"R: paint-strengthen-and-no-inspect : between-15-25 : * : * 100\n"
"R: paint-strengthen-and-no-inspect : more-25 : * : * 450\n"
"R: paint-strengthen-and-no-inspect : failed : * : * 2500\n"
"R: paint-strengthen-and-visual-inspect : less-5 : * : * 29\n"
"R: paint-strengthen-and-visual-inspect : between-5-15 : * : * 84\n"
"R: paint-strengthen-and-visual-inspect : between-15-25 : * : * 104\n"
"R: paint-strengthen-and-visual-inspect : more-25 : * : * 454\n"
"R: paint-strengthen-and-visual-inspect : failed : * : * 2504\n"
"R: paint-strengthen-and-ut-inspect : less-5 : * : * 43\n"
"R: paint-strengthen-and-ut-inspect : between-5-15 : * : * 98\n"
"R: paint-strengthen-and-ut-inspect : between-15-25 : * : * 118\n"
"R: paint-strengthen-and-ut-inspect : more-25 : * : * 468\n"
"R: paint-strengthen-and-ut-inspect : failed : * : * 2518\n"
"R: structural-repair-and-no-inspect : less-5 : * : * 40\n"
"R: structural-repair-and-no-inspect : between-5-15 : * : * 120\n"
"R: structural-repair-and-no-inspect : between-15-25 : * : * 550\n"
"R: structural-repair-and-no-inspect : more-25 : * : * 800\n"
"R: structural-repair-and-no-inspect : failed : * : * 4000\n"
"R: structural-repair-and-visual-inspect : less-5 : * : * 44\n"
"R: structural-repair-and-visual-inspect : between-5-15 : * : * 124\n"
"R: structural-repair-and-visual-inspect : between-15-25 : * : * 554\n"
"R: structural-repair-and-visual-inspect : more-25 : * : * 804\n"
"R: structural-repair-and-visual-inspect : failed : * : * 4004\n"
"R: structural-repair-and-ut-inspect : less-5 : * : * 58\n"
"R: structural-repair-and-ut-inspect : between-5-15 : * : * 138\n"
"R: structural-repair-and-ut-inspect : between-15-25 : * : * 568\n"
"R: structural-repair-and-ut-inspect : more-25 : * : * 818\n"
"R: structural-repair-and-ut-inspect : failed : * : * 4018\n", 5, 12, 5, 1.0, 1, {0.2,0.2,0.2,0.2,0.2}, {0,0.8,1,0.13,2,0.02,4,0.05,6,0.7,7,0.17,8,0.05,9,0.08,12,0.75,13,0.15,14,0.1,18,0.6,19,0.4,24,1.0,25,0.8,26,0.13,27,0.02,29,0.05,31,0.7,32,0.17,33,0.05,34,0.08,37,0.75,38,0.15,39,0.1,43,0.6,44,0.4,49,1.0,50,0.8,51,0.13,52,0.02,54,0.05,56,0.7,57,0.17,58,0.05,59,0.08,62,0.75,63,0.15,64,0.1,68,0.6,69,0.4,74,1.0,75,0.8,76,0.13,77,0.02,79,0.05,81,0.8,82,0.1,83,0.02,84,0.08,87,0.8,88,0.1,89,0.1,93,0.6,94,0.4,99,1.0,100,0.8,101,0.13,102,0.02,104,0.05,106,0.8,107,0.1,108,0.02,109,0.08,112,0.8,113,0.1,114,0.1,118,0.6,119,0.4,124,1.0,125,0.8,126,0.13,127,0.02,129,0.05,131,0.8,132,0.1,133,0.02,134,0.08,137,0.8,138,0.1,139,0.1,143,0.6,144,0.4,149,1.0,150,0.8,151,0.13,152,0.02,154,0.05,155,0.19,156,0.65,157,0.08,158,0.02,159,0.06,160,0.1,161,0.2,162,0.56,163,0.08,164,0.06,166,0.1,167,0.25,168,0.55,169,0.1,174,1.0,175,0.8,176,0.13,177,0.02,179,0.05,180,0.19,181,0.65,182,0.08,183,0.02,184,0.06,185,0.1,186,0.2,187,0.56,188,0.08,189,0.06,191,0.1,192,0.25,193,0.55,194,0.1,199,1.0,200,0.8,201,0.13,202,0.02,204,0.05,205,0.19,206,0.65,207,0.08,208,0.02,209,0.06,210,0.1,211,0.2,212,0.56,213,0.08,214,0.06,216,0.1,217,0.25,218,0.55,219,0.1,224,1.0,225,0.8,226,0.13,227,0.02,229,0.05,230,0.8,231,0.13,232,0.02,234,0.05,235,0.8,236,0.13,237,0.02,239,0.05,240,0.8,241,0.13,242,0.02,244,0.05,245,0.8,246,0.13,247,0.02,249,0.05,250,0.8,251,0.13,252,0.02,254,0.05,255,0.8,256,0.13,257,0.02,259,0.05,260,0.8,261,0.13,262,0.02,264,0.05,265,0.8,266,0.13,267,0.02,269,0.05,270,0.8,271,0.13,272,0.02,274,0.05,275,0.8,276,0.13,277,0.02,279,0.05,280,0.8,281,0.13,282,0.02,284,0.05,285,0.8,286,0.13,287,0.02,289,0.05,290,0.8,291,0.13,292,0.02,294,0.05,295,0.8,296,0.13,297,0.02,299,0.05}, {0,1.0,5,1.0,10,1.0,15,1.0,20,1.0,25,0.8,26,0.2,30,0.2,31,0.6,32,0.2,35,0.05,36,0.7,37,0.25,41,0.3,42,0.7,47,1.0,50,0.9,51,0.1,55,0.05,56,0.9,57,0.05,61,0.05,62,0.9,63,0.05,67,0.05,68,0.9,69,0.05,74,1.0,75,1.0,80,1.0,85,1.0,90,1.0,95,1.0,100,0.8,101,0.2,105,0.2,106,0.6,107,0.2,110,0.05,111,0.7,112,0.25,116,0.3,117,0.7,122,1.0,125,0.9,126,0.1,130,0.05,131,0.9,132,0.05,136,0.05,137,0.9,138,0.05,142,0.05,143,0.9,144,0.05,149,1.0,150,1.0,155,1.0,160,1.0,165,1.0,170,1.0,175,0.8,176,0.2,180,0.2,181,0.6,182,0.2,185,0.05,186,0.7,187,0.25,191,0.3,192,0.7,197,1.0,200,0.9,201,0.1,205,0.05,206,0.9,207,0.05,211,0.05,212,0.9,213,0.05,217,0.05,218,0.9,219,0.05,224,1.0,225,1.0,230,1.0,235,1.0,240,1.0,245,1.0,250,0.8,251,0.2,255,0.2,256,0.6,257,0.2,260,0.05,261,0.7,262,0.25,266,0.3,267,0.7,272,1.0,275,0.9,276,0.1,280,0.05,281,0.9,282,0.05,286,0.05,287,0.9,288,0.05,292,0.05,293,0.9,294,0.05,299,1.0}, {75,300.0,76,300.0,77,300.0,78,300.0,79,300.0,80,300.0,81,300.0,82,300.0,83,300.0,84,300.0,85,300.0,86,300.0,87,300.0,88,300.0,89,300.0,90,300.0,91,300.0,92,300.0,93,300.0,94,300.0,95,300.0,96,300.0,97,300.0,98,300.0,99,300.0,100,2000.0,101,2000.0,102,2000.0,103,2000.0,104,2000.0,105,2000.0,106,2000.0,107,2000.0,108,2000.0,109,2000.0,110,2000.0,111,2000.0,112,2000.0,113,2000.0,114,2000.0,115,2000.0,116,2000.0,117,2000.0,118,2000.0,119,2000.0,120,2000.0,121,2000.0,122,2000.0,123,2000.0,124,2000.0,125,4.0,126,4.0,127,4.0,128,4.0,129,4.0,130,4.0,131,4.0,132,4.0,133,4.0,134,4.0,135,4.0,136,4.0,137,4.0,138,4.0,139,4.0,140,4.0,141,4.0,142,4.0,143,4.0,144,4.0,145,4.0,146,4.0,147,4.0,148,4.0,149,4.0,150,4.0,151,4.0,152,4.0,153,4.0,154,4.0,155,4.0,156,4.0,157,4.0,158,4.0,159,4.0,160,4.0,161,4.0,162,4.0,163,4.0,164,4.0,165,4.0,166,4.0,167,4.0,168,4.0,169,4.0,170,4.0,171,4.0,172,4.0,173,4.0,174,4.0,175,4.0,176,4.0,177,4.0,178,4.0,179,4.0,180,4.0,181,4.0,182,4.0,183,4.0,184,4.0,185,4.0,186,4.0,187,4.0,188,4.0,189,4.0,190,4.0,191,4.0,192,4.0,193,4.0,194,4.0,195,4.0,196,4.0,197,4.0,198,4.0,199,4.0,200,304.0,201,304.0,202,304.0,203,304.0,204,304.0,205,304.0,206,304.0,207,304.0,208,304.0,209,304.0,210,304.0,211,304.0,212,304.0,213,304.0,214,304.0,215,304.0,216,304.0,217,304.0,218,304.0,219,304.0,220,304.0,221,304.0,222,304.0,223,304.0,224,304.0,225,2004.0,226,2004.0,227,2004.0,228,2004.0,229,2004.0,230,2004.0,231,2004.0,232,2004.0,233,2004.0,234,2004.0,235,2004.0,236,2004.0,237,2004.0,238,2004.0,239,2004.0,240,2004.0,241,2004.0,242,2004.0,243,2004.0,244,2004.0,245,2004.0,246,2004.0,247,2004.0,248,2004.0,249,2004.0,250,18.0,251,18.0,252,18.0,253,18.0,254,18.0,255,18.0,256,18.0,257,18.0,258,18.0,259,18.0,260,18.0,261,18.0,262,18.0,263,18.0,264,18.0,265,18.0,266,18.0,267,18.0,268,18.0,269,18.0,270,18.0,271,18.0,272,18.0,273,18.0,274,18.0,275,18.0,276,18.0,277,18.0,278,18.0,279,18.0,280,18.0,281,18.0,282,18.0,283,18.0,284,18.0,285,18.0,286,18.0,287,18.0,288,18.0,289,18.0,290,18.0,291,18.0,292,18.0,293,18.0,294,18.0,295,18.0,296,18.0,297,18.0,298,18.0,299,18.0,300,18.0,301,18.0,302,18.0,303,18.0,304,18.0,305,18.0,306,18.0,307,18.0,308,18.0,309,18.0,310,18.0,311,18.0,312,18.0,313,18.0,314,18.0,315,18.0,316,18.0,317,18.0,318,18.0,319,18.0,320,18.0,321,18.0,322,18.0,323,18.0,324,18.0,325,318.0,326,318.0,327,318.0,328,318.0,329,318.0,330,318.0,331,318.0,332,318.0,333,318.0,334,318.0,335,318.0,336,318.0,337,318.0,338,318.0,339,318.0,340,318.0,341,318.0,342,318.0,343,318.0,344,318.0,345,318.0,346,318.0,347,318.0,348,318.0,349,318.0,350,2018.0,351,2018.0,352,2018.0,353,2018.0,354,2018.0,355,2018.0,356,2018.0,357,2018.0,358,2018.0,359,2018.0,360,2018.0,361,2018.0,362,2018.0,363,2018.0,364,2018.0,365,2018.0,366,2018.0,367,2018.0,368,2018.0,369,2018.0,370,2018.0,371,2018.0,372,2018.0,373,2018.0,374,2018.0,375,5.0,376,5.0,377,5.0,378,5.0,379,5.0,380,5.0,381,5.0,382,5.0,383,5.0,384,5.0,385,5.0,386,5.0,387,5.0,388,5.0,389,5.0,390,5.0,391,5.0,392,5.0,393,5.0,394,5.0,395,5.0,396,5.0,397,5.0,398,5.0,399,5.0,400,8.0,401,8.0,402,8.0,403,8.0,404,8.0,405,8.0,406,8.0,407,8.0,408,8.0,409,8.0,410,8.0,411,8.0,412,8.0,413,8.0,414,8.0,415,8.0,416,8.0,417,8.0,418,8.0,419,8.0,420,8.0,421,8.0,422,8.0,423,8.0,424,8.0,425,15.0,426,15.0,427,15.0,428,15.0,429,15.0,430,15.0,431,15.0,432,15.0,433,15.0,434,15.0,435,15.0,436,15.0,437,15.0,438,15.0,439,15.0,440,15.0,441,15.0,442,15.0,443,15.0,444,15.0,445,15.0,446,15.0,447,15.0,448,15.0,449,15.0,450,320.0,451,320.0,452,320.0,453,320.0,454,320.0,455,320.0,456,320.0,457,320.0,458,320.0,459,320.0,460,320.0,461,320.0,462,320.0,463,320.0,464,320.0,465,320.0,466,320.0,467,320.0,468,320.0,469,320.0,470,320.0,471,320.0,472,320.0,473,320.0,474,320.0,475,2050.0,476,2050.0,477,2050.0,478,2050.0,479,2050.0,480,2050.0,481,2050.0,482,2050.0,483,2050.0,484,2050.0,485,2050.0,486,2050.0,487,2050.0,488,2050.0,489,2050.0,490,2050.0,491,2050.0,492,2050.0,493,2050.0,494,2050.0,495,2050.0,496,2050.0,497,2050.0,498,2050.0,499,2050.0,500,9.0,501,9.0,502,9.0,503,9.0,504,9.0,505,9.0,506,9.0,507,9.0,508,9.0,509,9.0,510,9.0,511,9.0,512,9.0,513,9.0,514,9.0,515,9.0,516,9.0,517,9.0,518,9.0,519,9.0,520,9.0,521,9.0,522,9.0,523,9.0,524,9.0,525,12.0,526,12.0,527,12.0,528,12.0,529,12.0,530,12.0,531,12.0,532,12.0,533,12.0,534,12.0,535,12.0,536,12.0,537,12.0,538,12.0,539,12.0,540,12.0,541,12.0,542,12.0,543,12.0,544,12.0,545,12.0,546,12.0,547,12.0,548,12.0,549,12.0,550,19.0,551,19.0,552,19.0,553,19.0,554,19.0,555,19.0,556,19.0,557,19.0,558,19.0,559,19.0,560,19.0,561,19.0,562,19.0,563,19.0,564,19.0,565,19.0,566,19.0,567,19.0,568,19.0,569,19.0,570,19.0,571,19.0,572,19.0,573,19.0,574,19.0,575,324.0,576,324.0,577,324.0,578,324.0,579,324.0,580,324.0,581,324.0,582,324.0,583,324.0,584,324.0,585,324.0,586,324.0,587,324.0,588,324.0,589,324.0,590,324.0,591,324.0,592,324.0,593,324.0,594,324.0,595,324.0,596,324.0,597,324.0,598,324.0,599,324.0,600,2054.0,601,2054.0,602,2054.0,603,2054.0,604,2054.0,605,2054.0,606,2054.0,607,2054.0,608,2054.0,609,2054.0,610,2054.0,611,2054.0,612,2054.0,613,2054.0,614,2054.0,615,2054.0,616,2054.0,617,2054.0,618,2054.0,619,2054.0,620,2054.0,621,2054.0,622,2054.0,623,2054.0,624,2054.0,625,23.0,626,23.0,627,23.0,628,23.0,629,23.0,630,23.0,631,23.0,632,23.0,633,23.0,634,23.0,635,23.0,636,23.0,637,23.0,638,23.0,639,23.0,640,23.0,641,23.0,642,23.0,643,23.0,644,23.0,645,23.0,646,23.0,647,23.0,648,23.0,649,23.0,650,26.0,651,26.0,652,26.0,653,26.0,654,26.0,655,26.0,656,26.0,657,26.0,658,26.0,659,26.0,660,26.0,661,26.0,662,26.0,663,26.0,664,26.0,665,26.0,666,26.0,667,26.0,668,26.0,669,26.0,670,26.0,671,26.0,672,26.0,673,26.0,674,26.0,675,33.0,676,33.0,677,33.0,678,33.0,679,33.0,680,33.0,681,33.0,682,33.0,683,33.0,684,33.0,685,33.0,686,33.0,687,33.0,688,33.0,689,33.0,690,33.0,691,33.0,692,33.0,693,33.0,694,33.0,695,33.0,696,33.0,697,33.0,698,33.0,699,33.0,700,338.0,701,338.0,702,338.0,703,338.0,704,338.0,705,338.0,706,338.0,707,338.0,708,338.0,709,338.0,710,338.0,711,338.0,712,338.0,713,338.0,714,338.0,715,338.0,716,338.0,717,338.0,718,338.0,719,338.0,720,338.0,721,338.0,722,338.0,723,338.0,724,338.0,725,2068.0,726,2068.0,727,2068.0,728,2068.0,729,2068.0,730,2068.0,731,2068.0,732,2068.0,733,2068.0,734,2068.0,735,2068.0,736,2068.0,737,2068.0,738,2068.0,739,2068.0,740,2068.0,741,2068.0,742,2068.0,743,2068.0,744,2068.0,745,2068.0,746,2068.0,747,2068.0,748,2068.0,749,2068.0,750,25.0,751,25.0,752,25.0,753,25.0,754,25.0,755,25.0,756,25.0,757,25.0,758,25.0,759,25.0,760,25.0,761,25.0,762,25.0,763,25.0,764,25.0,765,25.0,766,25.0,767,25.0,768,25.0,769,25.0,770,25.0,771,25.0,772,25.0,773,25.0,774,25.0,775,80.0,776,80.0,777,80.0,778,80.0,779,80.0,780,80.0,781,80.0,782,80.0,783,80.0,784,80.0,785,80.0,786,80.0,787,80.0,788,80.0,789,80.0,790,80.0,791,80.0,792,80.0,793,80.0,794,80.0,795,80.0,796,80.0,797,80.0,798,80.0,799,80.0,800,100.0,801,100.0,802,100.0,803,100.0,804,100.0,805,100.0,806,100.0,807,100.0,808,100.0,809,100.0,810,100.0,811,100.0,812,100.0,813,100.0,814,100.0,815,100.0,816,100.0,817,100.0,818,100.0,819,100.0,820,100.0,821,100.0,822,100.0,823,100.0,824,100.0,825,450.0,826,450.0,827,450.0,828,450.0,829,450.0,830,450.0,831,450.0,832,450.0,833,450.0,834,450.0,835,450.0,836,450.0,837,450.0,838,450.0,839,450.0,840,450.0,841,450.0,842,450.0,843,450.0,844,450.0,845,450.0,846,450.0,847,450.0,848,450.0,849,450.0,850,2500.0,851,2500.0,852,2500.0,853,2500.0,854,2500.0,855,2500.0,856,2500.0,857,2500.0,858,2500.0,859,2500.0,860,2500.0,861,2500.0,862,2500.0,863,2500.0,864,2500.0,865,2500.0,866,2500.0,867,2500.0,868,2500.0,869,2500.0,870,2500.0,871,2500.0,872,2500.0,873,2500.0,874,2500.0,875,29.0,876,29.0,877,29.0,878,29.0,879,29.0,880,29.0,881,29.0,882,29.0,883,29.0,884,29.0,885,29.0,886,29.0,887,29.0,888,29.0,889,29.0,890,29.0,891,29.0,892,29.0,893,29.0,894,29.0,895,29.0,896,29.0,897,29.0,898,29.0,899,29.0,900,84.0,901,84.0,902,84.0,903,84.0,904,84.0,905,84.0,906,84.0,907,84.0,908,84.0,909,84.0,910,84.0,911,84.0,912,84.0,913,84.0,914,84.0,915,84.0,916,84.0,917,84.0,918,84.0,919,84.0,920,84.0,921,84.0,922,84.0,923,84.0,924,84.0,925,104.0,926,104.0,927,104.0,928,104.0,929,104.0,930,104.0,931,104.0,932,104.0,933,104.0,934,104.0,935,104.0,936,104.0,937,104.0,938,104.0,939,104.0,940,104.0,941,104.0,942,104.0,943,104.0,944,104.0,945,104.0,946,104.0,947,104.0,948,104.0,949,104.0,950,454.0,951,454.0,952,454.0,953,454.0,954,454.0,955,454.0,956,454.0,957,454.0,958,454.0,959,454.0,960,454.0,961,454.0,962,454.0,963,454.0,964,454.0,965,454.0,966,454.0,967,454.0,968,454.0,969,454.0,970,454.0,971,454.0,972,454.0,973,454.0,974,454.0,975,2504.0,976,2504.0,977,2504.0,978,2504.0,979,2504.0,980,2504.0,981,2504.0,982,2504.0,983,2504.0,984,2504.0,985,2504.0,986,2504.0,987,2504.0,988,2504.0,989,2504.0,990,2504.0,991,2504.0,992,2504.0,993,2504.0,994,2504.0,995,2504.0,996,2504.0,997,2504.0,998,2504.0,999,2504.0,1000,43.0,1001,43.0,1002,43.0,1003,43.0,1004,43.0,1005,43.0,1006,43.0,1007,43.0,1008,43.0,1009,43.0,1010,43.0,1011,43.0,1012,43.0,1013,43.0,1014,43.0,1015,43.0,1016,43.0,1017,43.0,1018,43.0,1019,43.0,1020,43.0,1021,43.0,1022,43.0,1023,43.0,1024,43.0,1025,98.0,1026,98.0,1027,98.0,1028,98.0,1029,98.0,1030,98.0,1031,98.0,1032,98.0,1033,98.0,1034,98.0,1035,98.0,1036,98.0,1037,98.0,1038,98.0,1039,98.0,1040,98.0,1041,98.0,1042,98.0,1043,98.0,1044,98.0,1045,98.0,1046,98.0,1047,98.0,1048,98.0,1049,98.0,1050,118.0,1051,118.0,1052,118.0,1053,118.0,1054,118.0,1055,118.0,1056,118.0,1057,118.0,1058,118.0,1059,118.0,1060,118.0,1061,118.0,1062,118.0,1063,118.0,1064,118.0,1065,118.0,1066,118.0,1067,118.0,1068,118.0,1069,118.0,1070,118.0,1071,118.0,1072,118.0,1073,118.0,1074,118.0,1075,468.0,1076,468.0,1077,468.0,1078,468.0,1079,468.0,1080,468.0,1081,468.0,1082,468.0,1083,468.0,1084,468.0,1085,468.0,1086,468.0,1087,468.0,1088,468.0,1089,468.0,1090,468.0,1091,468.0,1092,468.0,1093,468.0,1094,468.0,1095,468.0,1096,468.0,1097,468.0,1098,468.0,1099,468.0,1100,2518.0,1101,2518.0,1102,2518.0,1103,2518.0,1104,2518.0,1105,2518.0,1106,2518.0,1107,2518.0,1108,2518.0,1109,2518.0,1110,2518.0,1111,2518.0,1112,2518.0,1113,2518.0,1114,2518.0,1115,2518.0,1116,2518.0,1117,2518.0,1118,2518.0,1119,2518.0,1120,2518.0,1121,2518.0,1122,2518.0,1123,2518.0,1124,2518.0,1125,40.0,1126,40.0,1127,40.0,1128,40.0,1129,40.0,1130,40.0,1131,40.0,1132,40.0,1133,40.0,1134,40.0,1135,40.0,1136,40.0,1137,40.0,1138,40.0,1139,40.0,1140,40.0,1141,40.0,1142,40.0,1143,40.0,1144,40.0,1145,40.0,1146,40.0,1147,40.0,1148,40.0,1149,40.0,1150,120.0,1151,120.0,1152,120.0,1153,120.0,1154,120.0,1155,120.0,1156,120.0,1157,120.0,1158,120.0,1159,120.0,1160,120.0,1161,120.0,1162,120.0,1163,120.0,1164,120.0,1165,120.0,1166,120.0,1167,120.0,1168,120.0,1169,120.0,1170,120.0,1171,120.0,1172,120.0,1173,120.0,1174,120.0,1175,550.0,1176,550.0,1177,550.0,1178,550.0,1179,550.0,1180,550.0,1181,550.0,1182,550.0,1183,550.0,1184,550.0,1185,550.0,1186,550.0,1187,550.0,1188,550.0,1189,550.0,1190,550.0,1191,550.0,1192,550.0,1193,550.0,1194,550.0,1195,550.0,1196,550.0,1197,550.0,1198,550.0,1199,550.0,1200,800.0,1201,800.0,1202,800.0,1203,800.0,1204,800.0,1205,800.0,1206,800.0,1207,800.0,1208,800.0,1209,800.0,1210,800.0,1211,800.0,1212,800.0,1213,800.0,1214,800.0,1215,800.0,1216,800.0,1217,800.0,1218,800.0,1219,800.0,1220,800.0,1221,800.0,1222,800.0,1223,800.0,1224,800.0,1225,4000.0,1226,4000.0,1227,4000.0,1228,4000.0,1229,4000.0,1230,4000.0,1231,4000.0,1232,4000.0,1233,4000.0,1234,4000.0,1235,4000.0,1236,4000.0,1237,4000.0,1238,4000.0,1239,4000.0,1240,4000.0,1241,4000.0,1242,4000.0,1243,4000.0,1244,4000.0,1245,4000.0,1246,4000.0,1247,4000.0,1248,4000.0,1249,4000.0,1250,44.0,1251,44.0,1252,44.0,1253,44.0,1254,44.0,1255,44.0,1256,44.0,1257,44.0,1258,44.0,1259,44.0,1260,44.0,1261,44.0,1262,44.0,1263,44.0,1264,44.0,1265,44.0,1266,44.0,1267,44.0,1268,44.0,1269,44.0,1270,44.0,1271,44.0,1272,44.0,1273,44.0,1274,44.0,1275,124.0,1276,124.0,1277,124.0,1278,124.0,1279,124.0,1280,124.0,1281,124.0,1282,124.0,1283,124.0,1284,124.0,1285,124.0,1286,124.0,1287,124.0,1288,124.0,1289,124.0,1290,124.0,1291,124.0,1292,124.0,1293,124.0,1294,124.0,1295,124.0,1296,124.0,1297,124.0,1298,124.0,1299,124.0,1300,554.0,1301,554.0,1302,554.0,1303,554.0,1304,554.0,1305,554.0,1306,554.0,1307,554.0,1308,554.0,1309,554.0,1310,554.0,1311,554.0,1312,554.0,1313,554.0,1314,554.0,1315,554.0,1316,554.0,1317,554.0,1318,554.0,1319,554.0,1320,554.0,1321,554.0,1322,554.0,1323,554.0,1324,554.0,1325,804.0,1326,804.0,1327,804.0,1328,804.0,1329,804.0,1330,804.0,1331,804.0,1332,804.0,1333,804.0,1334,804.0,1335,804.0,1336,804.0,1337,804.0,1338,804.0,1339,804.0,1340,804.0,1341,804.0,1342,804.0,1343,804.0,1344,804.0,1345,804.0,1346,804.0,1347,804.0,1348,804.0,1349,804.0,1350,4004.0,1351,4004.0,1352,4004.0,1353,4004.0,1354,4004.0,1355,4004.0,1356,4004.0,1357,4004.0,1358,4004.0,1359,4004.0,1360,4004.0,1361,4004.0,1362,4004.0,1363,4004.0,1364,4004.0,1365,4004.0,1366,4004.0,1367,4004.0,1368,4004.0,1369,4004.0,1370,4004.0,1371,4004.0,1372,4004.0,1373,4004.0,1374,4004.0,1375,58.0,1376,58.0,1377,58.0,1378,58.0,1379,58.0,1380,58.0,1381,58.0,1382,58.0,1383,58.0,1384,58.0,1385,58.0,1386,58.0,1387,58.0,1388,58.0,1389,58.0,1390,58.0,1391,58.0,1392,58.0,1393,58.0,1394,58.0,1395,58.0,1396,58.0,1397,58.0,1398,58.0,1399,58.0,1400,138.0,1401,138.0,1402,138.0,1403,138.0,1404,138.0,1405,138.0,1406,138.0,1407,138.0,1408,138.0,1409,138.0,1410,138.0,1411,138.0,1412,138.0,1413,138.0,1414,138.0,1415,138.0,1416,138.0,1417,138.0,1418,138.0,1419,138.0,1420,138.0,1421,138.0,1422,138.0,1423,138.0,1424,138.0,1425,568.0,1426,568.0,1427,568.0,1428,568.0,1429,568.0,1430,568.0,1431,568.0,1432,568.0,1433,568.0,1434,568.0,1435,568.0,1436,568.0,1437,568.0,1438,568.0,1439,568.0,1440,568.0,1441,568.0,1442,568.0,1443,568.0,1444,568.0,1445,568.0,1446,568.0,1447,568.0,1448,568.0,1449,568.0,1450,818.0,1451,818.0,1452,818.0,1453,818.0,1454,818.0,1455,818.0,1456,818.0,1457,818.0,1458,818.0,1459,818.0,1460,818.0,1461,818.0,1462,818.0,1463,818.0,1464,818.0,1465,818.0,1466,818.0,1467,818.0,1468,818.0,1469,818.0,1470,818.0,1471,818.0,1472,818.0,1473,818.0,1474,818.0,1475,4018.0,1476,4018.0,1477,4018.0,1478,4018.0,1479,4018.0,1480,4018.0,1481,4018.0,1482,4018.0,1483,4018.0,1484,4018.0,1485,4018.0,1486,4018.0,1487,4018.0,1488,4018.0,1489,4018.0,1490,4018.0,1491,4018.0,1492,4018.0,1493,4018.0,1494,4018.0,1495,4018.0,1496,4018.0,1497,4018.0,1498,4018.0,1499,4018.0}},
  {"cheese.95",
"discount: 0.95\n"
"values: reward\n"
"states: 11\n"
"actions: N0 S0 E0 W0 \n"
"observations: 7\n"
"start:\n"
"0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.0\n"
"T: N0\n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0\n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.0\n"
"T: S0\n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.0\n"
"T: E0\n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.0\n"
"T: W0\n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.100000 0.0\n"
"O: N0\n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 \n"
"O: S0\n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 \n"
"O: E0\n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 \n"
"O: W0\n"
"1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 \n"
"R: * : * : 10 : * 1.0\n", 11, 4, 7, 0.95, 0, {0.1,0.1,0.1,0.1,0.1,0.1,0.1,0.1,0.1,0.1,0.0}, {0,1.0,12,1.0,24,1.0,36,1.0,48,1.0,55,1.0,68,1.0,81,1.0,93,1.0,106,1.0,110,0.1,111,0.1,112,0.1,113,0.1,114,0.1,115,0.1,116,0.1,117,0.1,118,0.1,119,0.1,126,1.0,133,1.0,149,1.0,157,1.0,172,1.0,184,1.0,197,1.0,207,1.0,217,1.0,229,1.0,231,0.1,232,0.1,233,0.1,234,0.1,235,0.1,236,0.1,237,0.1,238,0.1,239,0.1,240,0.1,243,1.0,255,1.0,267,1.0,279,1.0,290,1.0,302,1.0,314,1.0,326,1.0,338,1.0,350,1.0,352,0.1,353,0.1,354,0.1,355,0.1,356,0.1,357,0.1,358,0.1,359,0.1,360,0.1,361,0.1,363,1.0,374,1.0,386,1.0,398,1.0,410,1.0,423,1.0,435,1.0,447,1.0,459,1.0,471,1.0,473,0.1,474,0.1,475,0.1,476,0.1,477,0.1,478,0.1,479,0.1,480,0.1,481,0.1,482,0.1}, {0,1.0,8,1.0,16,1.0,22,1.0,31,1.0,39,1.0,46,1.0,53,1.0,61,1.0,68,1.0,76,1.0,77,1.0,85,1.0,93,1.0,99,1.0,108,1.0,116,1.0,123,1.0,130,1.0,138,1.0,145,1.0,153,1.0,154,1.0,162,1.0,170,1.0,176,1.0,185,1.0,193,1.0,200,1.0,207,1.0,215,1.0,222,1.0,230,1.0,231,1.0,239,1.0,247,1.0,253,1.0,262,1.0,270,1.0,277,1.0,284,1.0,292,1.0,299,1.0,307,1.0}, {70,1.0,71,1.0,72,1.0,73,1.0,74,1.0,75,1.0,76,1.0,147,1.0,148,1.0,149,1.0,150,1.0,151,1.0,152,1.0,153,1.0,224,1.0,225,1.0,226,1.0,227,1.0,228,1.0,229,1.0,230,1.0,301,1.0,302,1.0,303,1.0,304,1.0,305,1.0,306,1.0,307,1.0,378,1.0,379,1.0,380,1.0,381,1.0,382,1.0,383,1.0,384,1.0,455,1.0,456,1.0,457,1.0,458,1.0,459,1.0,460,1.0,461,1.0,532,1.0,533,1.0,534,1.0,535,1.0,536,1.0,537,1.0,538,1.0,609,1.0,610,1.0,611,1.0,612,1.0,613,1.0,614,1.0,615,1.0,686,1.0,687,1.0,688,1.0,689,1.0,690,1.0,691,1.0,692,1.0,763,1.0,764,1.0,765,1.0,766,1.0,767,1.0,768,1.0,769,1.0,840,1.0,841,1.0,842,1.0,843,1.0,844,1.0,845,1.0,846,1.0,917,1.0,918,1.0,919,1.0,920,1.0,921,1.0,922,1.0,923,1.0,994,1.0,995,1.0,996,1.0,997,1.0,998,1.0,999,1.0,1000,1.0,1071,1.0,1072,1.0,1073,1.0,1074,1.0,1075,1.0,1076,1.0,1077,1.0,1148,1.0,1149,1.0,1150,1.0,1151,1.0,1152,1.0,1153,1.0,1154,1.0,1225,1.0,1226,1.0,1227,1.0,1228,1.0,1229,1.0,1230,1.0,1231,1.0,1302,1.0,1303,1.0,1304,1.0,1305,1.0,1306,1.0,1307,1.0,1308,1.0,1379,1.0,1380,1.0,1381,1.0,1382,1.0,1383,1.0,1384,1.0,1385,1.0,1456,1.0,1457,1.0,1458,1.0,1459,1.0,1460,1.0,1461,1.0,1462,1.0,1533,1.0,1534,1.0,1535,1.0,1536,1.0,1537,1.0,1538,1.0,1539,1.0,1610,1.0,1611,1.0,1612,1.0,1613,1.0,1614,1.0,1615,1.0,1616,1.0,1687,1.0,1688,1.0,1689,1.0,1690,1.0,1691,1.0,1692,1.0,1693,1.0,1764,1.0,1765,1.0,1766,1.0,1767,1.0,1768,1.0,1769,1.0,1770,1.0,1841,1.0,1842,1.0,1843,1.0,1844,1.0,1845,1.0,1846,1.0,1847,1.0,1918,1.0,1919,1.0,1920,1.0,1921,1.0,1922,1.0,1923,1.0,1924,1.0,1995,1.0,1996,1.0,1997,1.0,1998,1.0,1999,1.0,2000,1.0,2001,1.0,2072,1.0,2073,1.0,2074,1.0,2075,1.0,2076,1.0,2077,1.0,2078,1.0,2149,1.0,2150,1.0,2151,1.0,2152,1.0,2153,1.0,2154,1.0,2155,1.0,2226,1.0,2227,1.0,2228,1.0,2229,1.0,2230,1.0,2231,1.0,2232,1.0,2303,1.0,2304,1.0,2305,1.0,2306,1.0,2307,1.0,2308,1.0,2309,1.0,2380,1.0,2381,1.0,2382,1.0,2383,1.0,2384,1.0,2385,1.0,2386,1.0,2457,1.0,2458,1.0,2459,1.0,2460,1.0,2461,1.0,2462,1.0,2463,1.0,2534,1.0,2535,1.0,2536,1.0,2537,1.0,2538,1.0,2539,1.0,2540,1.0,2611,1.0,2612,1.0,2613,1.0,2614,1.0,2615,1.0,2616,1.0,2617,1.0,2688,1.0,2689,1.0,2690,1.0,2691,1.0,2692,1.0,2693,1.0,2694,1.0,2765,1.0,2766,1.0,2767,1.0,2768,1.0,2769,1.0,2770,1.0,2771,1.0,2842,1.0,2843,1.0,2844,1.0,2845,1.0,2846,1.0,2847,1.0,2848,1.0,2919,1.0,2920,1.0,2921,1.0,2922,1.0,2923,1.0,2924,1.0,2925,1.0,2996,1.0,2997,1.0,2998,1.0,2999,1.0,3000,1.0,3001,1.0,3002,1.0,3073,1.0,3074,1.0,3075,1.0,3076,1.0,3077,1.0,3078,1.0,3079,1.0,3150,1.0,3151,1.0,3152,1.0,3153,1.0,3154,1.0,3155,1.0,3156,1.0,3227,1.0,3228,1.0,3229,1.0,3230,1.0,3231,1.0,3232,1.0,3233,1.0,3304,1.0,3305,1.0,3306,1.0,3307,1.0,3308,1.0,3309,1.0,3310,1.0,3381,1.0,3382,1.0,3383,1.0,3384,1.0,3385,1.0,3386,1.0,3387,1.0}},
  {"concert",
"discount: 1\n"
"values: reward\n"
"states: interested bored\n"
"actions: tv radio nothing\n"
"observations: want-to-go dont-want-to-go\n"
"T: tv : interested      0.9 0.1\n"
"T: tv : bored           0.6 0.4\n"
"T: radio : interested   0.8 0.2\n"
"T: radio : bored        0.3 0.7\n"
"T: nothing : interested 0.5 0.5\n"
"T: nothing : bored      0.1 0.9\n"
"O: tv : interested      0.8 0.2\n"
"O: tv : bored           0.7 0.3\n"
"O: radio : interested   0.7 0.3\n"
"O: radio : bored        0.4 0.6\n"
"O: nothing : interested 0.9 0.1\n"
"O: nothing : bored      0.1 0.9\n"
"R: tv : * : *: * -10\n"
"R: radio : 1 : *: * -4\n"
"R: nothing : * : *: * 0\n", 2, 3, 2, 1.0, 0, {0.5,0.5}, {0,0.9,1,0.1,2,0.6,3,0.4,4,0.8,5,0.2,6,0.3,7,0.7,8,0.5,9,0.5,10,0.1,11,0.9}, {0,0.8,1,0.2,2,0.7,3,0.3,4,0.7,5,0.3,6,0.4,7,0.6,8,0.9,9,0.1,10,0.1,11,0.9}, {0,-10.0,1,-10.0,2,-10.0,3,-10.0,4,-10.0,5,-10.0,6,-10.0,7,-10.0,12,-4.0,13,-4.0,14,-4.0,15,-4.0}},
  {"ejs1",
"discount : 1.0\n"
"values: reward\n"
"states: none-bad one-bad two-bad\n"
"actions: Manufacture Examine Inspect Replace\n"
"observations: good defective\n"
"T: Manufacture\n"
"0.81   0.18   0.01\n"
"0.00   0.90   0.10\n"
"0.00   0.00   1.00\n"
"T: Examine\n"
"0.81   0.18   0.01\n"
"0.00   0.90   0.10 \n"
"0.00   0.00   1.00\n"
"T: Inspect\n"
"1.00   0.00   0.00\n"
"1.00   0.00   0.00\n"
"1.00   0.00   0.00\n"
"T: Replace\n"
"1.00   0.00   0.00\n"
"1.00   0.00   0.00\n"
"1.00   0.00   0.00\n"
"O: Manufacture\n"
"1.00   0.00\n"
"1.00   0.00\n"
"1.00   0.00\n"
"O: Examine\n"
"1.00   0.00\n"
"0.50   0.50\n"
"0.25   0.75\n"
"O: Inspect\n"
"1.00   0.00\n"
"1.00   0.00\n"
"1.00   0.00\n"
"O: Replace\n"
"1.00   0.00\n"
"1.00   0.00\n"
"1.00   0.00\n"
"R: Manufacture : * : none-bad : * 1.00\n"
"R: Manufacture : * : one-bad : * 0.50\n"
"R: Manufacture : * : two-bad : * 0.25\n"
"R: Examine : * : none-bad : * 0.75\n"
"R: Examine : * : one-bad : * 0.25\n"
"R: Examine : * : two-bad : * 0.0\n"
"R: Inspect : none-bad : * : * -0.5\n"
"R: Inspect : one-bad : * : * -1.5\n"
"R: Inspect : two-bad : * : * -2.5\n"
"R: Replace : * : * : * -2.0\n", 3, 4, 2, 1.0, 0, {0.3333333333333333,0.3333333333333333,0.3333333333333333}, {0,0.81,1,0.18,2,0.01,4,0.9,5,0.1,8,1.0,9,0.81,10,0.18,11,0.01,13,0.9,14,0.1,17,1.0,18,1.0,21,1.0,24,1.0,27,1.0,30,1.0,33,1.0}, {0,1.0,2,1.0,4,1.0,6,1.0,8,0.5,9,0.5,10,0.25,11,0.75,12,1.0,14,1.0,16,1.0,18,1.0,20,1.0,22,1.0}, {0,1.0,1,1.0,2,0.5,3,0.5,4,0.25,5,0.25,6,1.0,7,1.0,8,0.5,9,0.5,10,0.25,11,0.25,12,1.0,13,1.0,14,0.5,15,0.5,16,0.25,17,0.25,18,0.75,19,0.75,20,0.25,21,0.25,24,0.75,25,0.75,26,0.25,27,0.25,30,0.75,31,0.75,32,0.25,33,0.25,36,-0.5,37,-0.5,38,-0.5,39,-0.5,40,-0.5,41,-0.5,42,-1.5,43,-1.5,44,-1.5,45,-1.5,46,-1.5,47,-1.5,48,-2.5,49,-2.5,50,-2.5,51,-2.5,52,-2.5,53,-2.5,54,-2.0,55,-2.0,56,-2.0,57,-2.0,58,-2.0,59,-2.0,60,-2.0,61,-2.0,62,-2.0,63,-2.0,64,-2.0,65,-2.0,66,-2.0,67,-2.0,68,-2.0,69,-2.0,70,-2.0,71,-2.0}},
  {"ejs2",
"discount : 1.0\n"
"values: reward\n"
"states: 2\n"
"actions: 2\n"
"observations: 2\n"
"T : 0\n"
"0.8 0.2\n"
"0.5 0.5\n"
"T : 1\n"
"0.2 0.8\n"
"0.8 0.2\n"
"O : 0\n"
"0.8 0.2\n"
"0.6 0.4\n"
"O : 1\n"
"0.7 0.3\n"
"0.4 0.6\n"
"R : 0 : 0 : * : * -4\n"
"R : 0 : 1 : * : * 4\n"
"R : 0 : 0 : * : * 0\n"
"R : 1 : 1 : * : * 3\n", 2, 2, 2, 1.0, 0, {0.5,0.5}, {0,0.8,1,0.2,2,0.5,3,0.5,4,0.2,5,0.8,6,0.8,7,0.2}, {0,0.8,1,0.2,2,0.6,3,0.4,4,0.7,5,0.3,6,0.4,7,0.6}, {4,4.0,5,4.0,6,4.0,7,4.0,12,3.0,13,3.0,14,3.0,15,3.0}},
  {"ejs3",
"discount: 1.0\n"
"values: cost\n"
"states: 2\n"
"actions: 2\n"
"observations: 2\n"
"T: 0\n"
"0.8 0.2\n"
"0.5 0.5\n"
"T: 1\n"
"0.5 0.5\n"
"0.4 0.6\n"
"O: 0\n"
"0.8 0.2\n"
"0.6 0.4\n"
"O: 1\n"
"0.9 0.1\n"
"0.4 0.6\n"
"R : 0 : 0 : * : * 4\n"
"R : 0 : 1 : * : * -4\n"
"R : 1 : 0 : * : * 0\n"
"R : 1 : 1 : * : * -3\n", 2, 2, 2, 1.0, 1, {0.5,0.5}, {0,0.8,1,0.2,2,0.5,3,0.5,4,0.5,5,0.5,6,0.4,7,0.6}, {0,0.8,1,0.2,2,0.6,3,0.4,4,0.9,5,0.1,6,0.4,7,0.6}, {0,4.0,1,4.0,2,4.0,3,4.0,4,-4.0,5,-4.0,6,-4.0,7,-4.0,12,-3.0,13,-3.0,14,-3.0,15,-3.0}},
  {"parr95.95",
"discount: 0.95\n"
"values: reward\n"
"states: I hi-A lo-A C D plus1 minus1\n"
"actions: a b c\n"
"observations: I A C D plus1 minus1\n"
"start include: I\n"
"T : * : I : hi-A 0.5\n"
"T : * : I : lo-A 0.5\n"
"T : a : hi-A : C 1.0\n"
"T : b : hi-A : minus1 1.0\n"
"T : c : hi-A : plus1 1.0\n"
"T : a : lo-A : D 1.0\n"
"T : b : lo-A : plus1 1.0\n"
"T : c : lo-A : minus1 1.0\n"
"T : a : C : hi-A 1.0\n"
"T : b : C : I 1.0\n"
"T : c : C : I 1.0\n"
"T : a : D : lo-A 1.0\n"
"T : b : D : I 1.0\n"
"T : c : D : I 1.0\n"
"T : * : plus1 : I 1.0\n"
"T : * : minus1 : I 1.0\n"
"O : * : I : I 1.0\n"
"O : * : hi-A : A 1.0\n"
"O : * : lo-A : A 1.0\n"
"O : * : C : C 1.0\n"
"O : * : D : D 1.0\n"
"O : * : plus1 : plus1 1.0\n"
"O : * : minus1 : minus1 1.0\n"
"R: * : plus1 : * : * 2.0\n"
"R: * : minus1 : * : * 0.0\n", 7, 3, 6, 0.95, 0, {1.0,0.0,0.0,0.0,0.0,0.0,0.0}, {1,0.5,2,0.5,10,1.0,18,1.0,22,1.0,30,1.0,35,1.0,42,1.0,50,0.5,51,0.5,62,1.0,68,1.0,70,1.0,77,1.0,84,1.0,91,1.0,99,0.5,100,0.5,110,1.0,118,1.0,119,1.0,126,1.0,133,1.0,140,1.0}, {0,1.0,7,1.0,13,1.0,20,1.0,27,1.0,34,1.0,41,1.0,42,1.0,49,1.0,55,1.0,62,1.0,69,1.0,76,1.0,83,1.0,84,1.0,91,1.0,97,1.0,104,1.0,111,1.0,118,1.0,125,1.0}, {210,2.0,211,2.0,212,2.0,213,2.0,214,2.0,215,2.0,216,2.0,217,2.0,218,2.0,219,2.0,220,2.0,221,2.0,222,2.0,223,2.0,224,2.0,225,2.0,226,2.0,227,2.0,228,2.0,229,2.0,230,2.0,231,2.0,232,2.0,233,2.0,234,2.0,235,2.0,236,2.0,237,2.0,238,2.0,239,2.0,240,2.0,241,2.0,242,2.0,243,2.0,244,2.0,245,2.0,246,2.0,247,2.0,248,2.0,249,2.0,250,2.0,251,2.0,504,2.0,505,2.0,506,2.0,507,2.0,508,2.0,509,2.0,510,2.0,511,2.0,512,2.0,513,2.0,514,2.0,515,2.0,516,2.0,517,2.0,518,2.0,519,2.0,520,2.0,521,2.0,522,2.0,523,2.0,524,2.0,525,2.0,526,2.0,527,2.0,528,2.0,529,2.0,530,2.0,531,2.0,532,2.0,533,2.0,534,2.0,535,2.0,536,2.0,537,2.0,538,2.0,539,2.0,540,2.0,541,2.0,542,2.0,543,2.0,544,2.0,545,2.0,798,2.0,799,2.0,800,2.0,801,2.0,802,2.0,803,2.0,804,2.0,805,2.0,806,2.0,807,2.0,808,2.0,809,2.0,810,2.0,811,2.0,812,2.0,813,2.0,814,2.0,815,2.0,816,2.0,817,2.0,818,2.0,819,2.0,820,2.0,821,2.0,822,2.0,823,2.0,824,2.0,825,2.0,826,2.0,827,2.0,828,2.0,829,2.0,830,2.0,831,2.0,832,2.0,833,2.0,834,2.0,835,2.0,836,2.0,837,2.0,838,2.0,839,2.0}},
  {"shuttle.95",
"discount: 0.95\n"
"values: reward\n"
"states:  8 \n"
"actions: TurnAround GoForward Backup \n"
"observations: 5\n"
"start:\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0\n"
"T: TurnAround\n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0  \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0  \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0  \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0 \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0  \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0  \n"
"0.0 0.0 0.0 1.0 0.0 0.0 0.0 0.0  \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0 \n"
"T: GoForward\n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0  \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0  \n"
"0.0 1.0 0.0 0.0 0.0 0.0 0.0 0.0  \n"
"0.0 0.0 1.0 0.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 1.0 0.0 0.0  \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0  \n"
"0.0 0.0 0.0 0.0 0.0 0.0 1.0 0.0  \n"
"0.0 0.0 0.0 0.0 1.0 0.0 0.0 0.0 \n"
"T: Backup\n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0 \n"
"0.0 0.4 0.3 0.0 0.3 0.0 0.0 0.0 \n"
"0.0 0.0 0.1 0.8 0.0 0.0 0.1 0.0 \n"
"0.7 0.0 0.0 0.3 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 0.0 0.0 0.3 0.0 0.0 0.7 \n"
"0.0 0.1 0.0 0.0 0.8 0.1 0.0 0.0 \n"
"0.0 0.0 0.0 0.3 0.0 0.3 0.4 0.0 \n"
"0.0 0.0 0.0 0.0 0.0 0.0 0.0 1.0\n"
"O: *\n"
"0.0 0.0 0.0 0.0 1.0 \n"
"0.0 1.0 0.0 0.0 0.0 \n"
"0.0 0.7 0.0 0.3 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 \n"
"0.0 0.0 0.0 1.0 0.0 \n"
"0.7 0.0 0.0 0.3 0.0 \n"
"1.0 0.0 0.0 0.0 0.0 \n"
"0.0 0.0 1.0 0.0 0.0 \n"
"R: GoForward : 1 : 1 : * -3\n"
"R: GoForward : 6 : 6 : * -3   \n"
"R: Backup : 3 : 0 : * 10\n", 8, 3, 5, 0.95, 0, {0.0,0.0,0.0,0.0,0.0,0.0,0.0,1.0}, {1,1.0,12,1.0,21,1.0,30,1.0,33,1.0,42,1.0,51,1.0,57,1.0,68,1.0,73,1.0,81,1.0,90,1.0,101,1.0,110,1.0,118,1.0,124,1.0,135,1.0,137,0.4,138,0.3,140,0.3,146,0.1,147,0.8,150,0.1,152,0.7,155,0.3,164,0.3,167,0.7,169,0.1,172,0.8,173,0.1,179,0.3,181,0.3,182,0.4,191,1.0}, {4,1.0,6,1.0,11,0.7,13,0.3,18,1.0,23,1.0,25,0.7,28,0.3,30,1.0,37,1.0,44,1.0,46,1.0,51,0.7,53,0.3,58,1.0,63,1.0,65,0.7,68,0.3,70,1.0,77,1.0,84,1.0,86,1.0,91,0.7,93,0.3,98,1.0,103,1.0,105,0.7,108,0.3,110,1.0,117,1.0}, {365,-3.0,366,-3.0,367,-3.0,368,-3.0,369,-3.0,590,-3.0,591,-3.0,592,-3.0,593,-3.0,594,-3.0,760,10.0,761,10.0,762,10.0,763,10.0,764,10.0}},
  {"tiger.95",
"discount: 0.95\n"
"values: reward\n"
"states: tiger-left tiger-right \n"
"actions: listen open-left open-right\n"
"observations: tiger-left tiger-right\n"
"start: \n"
"0.5 0.5\n"
"T:listen\n"
"identity\n"
"T:open-left\n"
"uniform\n"
"T:open-right\n"
"uniform\n"
"O:listen\n"
"0.85 0.15\n"
"0.15 0.85\n"
"O:open-left\n"
"uniform\n"
"O:open-right\n"
"uniform\n"
"R:listen : * : * : * -1\n"
"R:open-left : tiger-left : * : * -100\n"
"R:open-left : tiger-right : * : * 10\n"
"R:open-right : tiger-left : * : * 10 \n"
"R:open-right : tiger-right : * : * -100\n", 2, 3, 2, 0.95, 0, {0.5,0.5}, {0,1.0,3,1.0,4,0.5,5,0.5,6,0.5,7,0.5,8,0.5,9,0.5,10,0.5,11,0.5}, {0,0.85,1,0.15,2,0.15,3,0.85,4,0.5,5,0.5,6,0.5,7,0.5,8,0.5,9,0.5,10,0.5,11,0.5}, {0,-1.0,1,-1.0,2,-1.0,3,-1.0,4,-1.0,5,-1.0,6,-1.0,7,-1.0,8,-100.0,9,-100.0,10,-100.0,11,-100.0,12,10.0,13,10.0,14,10.0,15,10.0,16,10.0,17,10.0,18,10.0,19,10.0,20,-100.0,21,-100.0,22,-100.0,23,-100.0}},
  {"tiger.aaai",
"discount: 0.75\n"
"values: reward\n"
"states: tiger-left tiger-right \n"
"actions: listen open-left open-right\n"
"observations: tiger-left tiger-right\n"
"T:listen\n"
"identity\n"
"T:open-left\n"
"uniform\n"
"T:open-right\n"
"uniform\n"
"O:listen\n"
"0.85 0.15\n"
"0.15 0.85\n"
"O:open-left\n"
"uniform\n"
"O:open-right\n"
"uniform\n"
"R:listen : * : * : * -1\n"
"R:open-left : tiger-left : * : * -100\n"
"R:open-left : tiger-right : * : * 10\n"
"R:open-right : tiger-left : * : * 10 \n"
"R:open-right : tiger-right : * : * -100\n", 2, 3, 2, 0.75, 0, {0.5,0.5}, {0,1.0,3,1.0,4,0.5,5,0.5,6,0.5,7,0.5,8,0.5,9,0.5,10,0.5,11,0.5}, {0,0.85,1,0.15,2,0.15,3,0.85,4,0.5,5,0.5,6,0.5,7,0.5,8,0.5,9,0.5,10,0.5,11,0.5}, {0,-1.0,1,-1.0,2,-1.0,3,-1.0,4,-1.0,5,-1.0,6,-1.0,7,-1.0,8,-100.0,9,-100.0,10,-100.0,11,-100.0,12,10.0,13,10.0,14,10.0,15,10.0,16,10.0,17,10.0,18,10.0,19,10.0,20,-100.0,21,-100.0,22,-100.0,23,-100.0}},
  {"manuel-hartman.2013-09-19",
"discount: 1.0\n"
"values: reward\n"
"states:  s1 s2\n"
"actions: a b\n"
"observations: y z\n"
"start:\n"
"0.5 0.5\n"
"T: a\n"
"0.7  0.3\n"
"0.0  1.0\n"
"T: b\n"
"1.0  0.0\n"
"1.0  0.0\n"
"O: * : s1 : y 0.9\n"
"O: * : s2 : y 0.2\n"
"O: * : s1 : z 0.1\n"
"O: * : s2 : z 0.8\n"
"R: a : * : s1 : * 10\n"
"R: a : * : s2 : * -30\n"
"R: b : * : s1 : * 10\n"
"R: b : * : s2 : * -30\n", 2, 2, 2, 1.0, 0, {0.5,0.5}, {0,0.7,1,0.3,3,1.0,4,1.0,6,1.0}, {0,0.9,1,0.1,2,0.2,3,0.8,4,0.9,5,0.1,6,0.2,7,0.8}, {0,10.0,1,10.0,2,-30.0,3,-30.0,4,10.0,5,10.0,6,-30.0,7,-30.0,8,10.0,9,10.0,10,-30.0,11,-30.0,12,10.0,13,10.0,14,-30.0,15,-30.0}},
  };
  return X;
}
