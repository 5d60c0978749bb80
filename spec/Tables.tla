------------------------------- MODULE Tables -------------------------------
(* generated by tools/mktables.py: tanh(z/2) and 1/(1+exp(z/2)) for z = -40..40, *)
(* exp(-m/16) for m = 1..480 *)
EXTENDS Integers
TanhTab == <<
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,0>>,
  <<-1,0,1>>,
  <<-1,0,3>>,
  <<-1,0,8>>,
  <<-1,0,22>>,
  <<-1,0,60>>,
  <<-1,0,164>>,
  <<-1,1,145>>,
  <<-1,4,5>>,
  <<-1,10,238>>,
  <<-1,28,137>>,
  <<-1,71,157>>,
  <<-1,161,109>>,
  <<0,0,0>>,
  <<0,138,191>>,
  <<0,228,143>>,
  <<0,271,163>>,
  <<0,289,62>>,
  <<0,295,295>>,
  <<0,298,155>>,
  <<0,299,136>>,
  <<0,299,240>>,
  <<0,299,278>>,
  <<0,299,292>>,
  <<0,299,297>>,
  <<0,299,299>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>> >>

SigmTab == <<
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<1,0,0>>,
  <<0,299,299>>,
  <<0,299,299>>,
  <<0,299,298>>,
  <<0,299,298>>,
  <<0,299,296>>,
  <<0,299,293>>,
  <<0,299,289>>,
  <<0,299,282>>,
  <<0,299,270>>,
  <<0,299,250>>,
  <<0,299,218>>,
  <<0,299,165>>,
  <<0,299,77>>,
  <<0,298,234>>,
  <<0,297,298>>,
  <<0,296,211>>,
  <<0,294,181>>,
  <<0,291,62>>,
  <<0,285,232>>,
  <<0,277,73>>,
  <<0,264,72>>,
  <<0,245,82>>,
  <<0,219,95>>,
  <<0,186,221>>,
  <<0,150,0>>,
  <<0,113,79>>,
  <<0,80,205>>,
  <<0,54,218>>,
  <<0,35,228>>,
  <<0,22,227>>,
  <<0,14,68>>,
  <<0,8,238>>,
  <<0,5,119>>,
  <<0,3,89>>,
  <<0,2,2>>,
  <<0,1,66>>,
  <<0,0,223>>,
  <<0,0,135>>,
  <<0,0,82>>,
  <<0,0,50>>,
  <<0,0,30>>,
  <<0,0,18>>,
  <<0,0,11>>,
  <<0,0,7>>,
  <<0,0,4>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>> >>

ExpTab == <<
  <<0,281,247>>,
  <<0,264,225>>,
  <<0,248,213>>,
  <<0,233,192>>,
  <<0,219,145>>,
  <<0,206,56>>,
  <<0,193,208>>,
  <<0,181,288>>,
  <<0,170,280>>,
  <<0,160,174>>,
  <<0,150,255>>,
  <<0,141,213>>,
  <<0,133,37>>,
  <<0,125,18>>,
  <<0,117,145>>,
  <<0,110,109>>,
  <<0,103,203>>,
  <<0,97,119>>,
  <<0,91,148>>,
  <<0,85,285>>,
  <<0,80,223>>,
  <<0,75,256>>,
  <<0,71,77>>,
  <<0,66,282>>,
  <<0,62,265>>,
  <<0,59,22>>,
  <<0,55,148>>,
  <<0,52,40>>,
  <<0,48,292>>,
  <<0,46,2>>,
  <<0,43,66>>,
  <<0,40,180>>,
  <<0,38,42>>,
  <<0,35,249>>,
  <<0,33,198>>,
  <<0,31,186>>,
  <<0,29,211>>,
  <<0,27,271>>,
  <<0,26,64>>,
  <<0,24,188>>,
  <<0,23,40>>,
  <<0,21,220>>,
  <<0,20,125>>,
  <<0,19,54>>,
  <<0,18,5>>,
  <<0,16,277>>,
  <<0,15,270>>,
  <<0,14,281>>,
  <<0,14,9>>,
  <<0,13,54>>,
  <<0,12,115>>,
  <<0,11,190>>,
  <<0,10,278>>,
  <<0,10,80>>,
  <<0,9,193>>,
  <<0,9,18>>,
  <<0,8,153>>,
  <<0,7,298>>,
  <<0,7,153>>,
  <<0,7,17>>,
  <<0,6,188>>,
  <<0,6,68>>,
  <<0,5,255>>,
  <<0,5,148>>,
  <<0,5,49>>,
  <<0,4,255>>,
  <<0,4,167>>,
  <<0,4,84>>,
  <<0,4,6>>,
  <<0,3,233>>,
  <<0,3,164>>,
  <<0,3,100>>,
  <<0,3,39>>,
  <<0,2,282>>,
  <<0,2,229>>,
  <<0,2,179>>,
  <<0,2,131>>,
  <<0,2,87>>,
  <<0,2,46>>,
  <<0,2,6>>,
  <<0,1,270>>,
  <<0,1,235>>,
  <<0,1,203>>,
  <<0,1,172>>,
  <<0,1,144>>,
  <<0,1,117>>,
  <<0,1,92>>,
  <<0,1,68>>,
  <<0,1,46>>,
  <<0,1,25>>,
  <<0,1,5>>,
  <<0,0,286>>,
  <<0,0,269>>,
  <<0,0,253>>,
  <<0,0,237>>,
  <<0,0,223>>,
  <<0,0,210>>,
  <<0,0,197>>,
  <<0,0,185>>,
  <<0,0,174>>,
  <<0,0,163>>,
  <<0,0,153>>,
  <<0,0,144>>,
  <<0,0,135>>,
  <<0,0,127>>,
  <<0,0,119>>,
  <<0,0,112>>,
  <<0,0,105>>,
  <<0,0,99>>,
  <<0,0,93>>,
  <<0,0,87>>,
  <<0,0,82>>,
  <<0,0,77>>,
  <<0,0,72>>,
  <<0,0,68>>,
  <<0,0,64>>,
  <<0,0,60>>,
  <<0,0,56>>,
  <<0,0,53>>,
  <<0,0,50>>,
  <<0,0,47>>,
  <<0,0,44>>,
  <<0,0,41>>,
  <<0,0,39>>,
  <<0,0,36>>,
  <<0,0,34>>,
  <<0,0,32>>,
  <<0,0,30>>,
  <<0,0,28>>,
  <<0,0,27>>,
  <<0,0,25>>,
  <<0,0,24>>,
  <<0,0,22>>,
  <<0,0,21>>,
  <<0,0,19>>,
  <<0,0,18>>,
  <<0,0,17>>,
  <<0,0,16>>,
  <<0,0,15>>,
  <<0,0,14>>,
  <<0,0,13>>,
  <<0,0,13>>,
  <<0,0,12>>,
  <<0,0,11>>,
  <<0,0,10>>,
  <<0,0,10>>,
  <<0,0,9>>,
  <<0,0,9>>,
  <<0,0,8>>,
  <<0,0,8>>,
  <<0,0,7>>,
  <<0,0,7>>,
  <<0,0,6>>,
  <<0,0,6>>,
  <<0,0,6>>,
  <<0,0,5>>,
  <<0,0,5>>,
  <<0,0,5>>,
  <<0,0,4>>,
  <<0,0,4>>,
  <<0,0,4>>,
  <<0,0,4>>,
  <<0,0,3>>,
  <<0,0,3>>,
  <<0,0,3>>,
  <<0,0,3>>,
  <<0,0,3>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,2>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,1>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>>,
  <<0,0,0>> >>

=============================================================================
