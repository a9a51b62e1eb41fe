From a98439e01af8bfafeb5319447baef72c56643564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 01/21] fix: keep the species name intact when a coefficient
 precedes a name containing digits

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index aa72dae..794a7ee 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -201,7 +201,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                     #in temp[0] away from the original string. Lets assume that we can attach the first
                     #part of the text with the second number in temp. Thus
                     if reactant.index(stoich) == 0 :
-                        reactant=reactant.split(stoich,1)[1]+temp[1]
+                        reactant=reactant.split(stoich,1)[1]
                         stoich=float(stoich)
                     else:
                         stoich=1.0
@@ -258,7 +258,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             #in temp[0] away from the original string. Lets assume that we can attach the first
                             #part of the text with the second number in temp. Thus
                             if product.index(stoich) == 0 :
-                                product=product.split(stoich,1)[1]+temp[1]
+                                product=product.split(stoich,1)[1]
                                 stoich=float(stoich)
                             else:
                                 stoich=1.0
-- 
2.43.0


From 4a38d12fbe616cb8ce3007eb69740c6122afa2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 02/21] fix: accumulate repeated products of a reaction instead
 of dropping them

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 794a7ee..b1d1c7a 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -279,7 +279,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             species_hess_gain_data[product]=[]
                         species_hess_gain_data[product].append(equation_step) #so from this we can work out a dx/dy
                         # -- Update loss dictionaries -- 
-                        if equation_step in gain_dict[reactant]:
+                        if equation_step in gain_dict[product]:
                             gain_dict[product][equation_step]+=stoich
                         else:
                             gain_dict[product][equation_step]=stoich
-- 
2.43.0


From 43eccac26eae98726be2ce24aa33497dcb789e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 03/21] fix: count a reactant that is written twice once in the
 rate law

---
 Parse_eqn_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index b1d1c7a..6da21c6 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -213,7 +213,9 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             #Now store the stoichiometry and reactant in dictionaries
             if reactant not in ['hv']:
                 stoich_dict[equation_step][reactant_step]=stoich
-                rate_dict_reactants[equation_step][reactant_step]=reactant 
+                # A reactant given more than once [e.g. 'A + A'] is listed once, with the total stoichiometry in loss_dict
+                if reactant not in rate_dict_reactants[equation_step].values():
+                    rate_dict_reactants[equation_step][reactant_step]=reactant 
                 # -- Update species dictionaries --
                 if reactant not in species_dict.values(): #check to see if entry already exists
                     species_dict[species_step]=reactant # useful for checking all parsed species
-- 
2.43.0


From 6c91fc4f0334e3257bf157aa836f4e7ec9e05800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 04/21] fix: use the coefficient itself in the Fortran
 loss/gain terms, not the coefficient plus one

---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 6da21c6..c75054b 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2603,13 +2603,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('-1.0*r(%s)'%(equation_step+1))
                             else:
-                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         else:
                             if stoich==1:
                                 f.write('-r(%s)'%(equation_step+1))
                             else:
-                                f.write('-r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         flag+=1
                         
@@ -2626,13 +2626,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         else:
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         flag+=1
                         
-- 
2.43.0


From e8747283c166f47132996efee5eeb9d46d8d8ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 05/21] fix: add production to loss in the sparse loss/gain
 matrix instead of overwriting it

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index c75054b..d93f72f 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2403,10 +2403,10 @@ def write_loss_gain_matrix(filename,equations,num_species,loss_dict,gain_dict,sp
             for equation_step, stoich in gain_dict[species].items():
                 if stoich==1:
                     #f.write('+r[%s]'%(equation_step))
-                    loss_gain[species_step,equation_step]=1.0
+                    loss_gain[species_step,equation_step]+=1.0
                 else:
                     #f.write('+r[%s]*%s'%(equation_step,stoich))
-                    loss_gain[species_step,equation_step]=1.0*stoich
+                    loss_gain[species_step,equation_step]+=1.0*stoich
                 
     #Now convert matrix type for use in numerical operations later
     loss_gain = loss_gain.tocsr()
-- 
2.43.0


From 04be26b5d43b6eab273ada7089f8e695726ed2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:24 +0000
Subject: [PATCH 06/21] fix: weight the Jacobian terms with the coefficient of
 the species and handle non-integer reactant coefficients

---
 Parse_eqn_file.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index d93f72f..0963a3a 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2827,12 +2827,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('-%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2853,6 +2853,10 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('-1.0*r(%s)'%(equation+1))
+                            # Each term counts once per unit of the coefficient of the specie in this reaction
+                            if loss_dict[species][equation]!=1:
+                                f.write('*%s'%(loss_dict[species][equation]))
+                                equation_flag+=1
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -2903,12 +2907,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('+%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2929,6 +2933,10 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('+1.0*r(%s)'%(equation+1))
+                            # Each term counts once per unit of the coefficient of the specie in this reaction
+                            if gain_dict[species][equation]!=1:
+                                f.write('*%s'%(gain_dict[species][equation]))
+                                equation_flag+=1
                             equation_flag+=1
 
 
@@ -3091,12 +3099,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('-%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3117,6 +3125,10 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('-1.0*r[%s]'%(equation))
+                            # Each term counts once per unit of the coefficient of the specie in this reaction
+                            if loss_dict[species][equation]!=1:
+                                f.write('*%s'%(loss_dict[species][equation]))
+                                equation_flag+=1
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -3167,12 +3179,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('+%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3193,6 +3205,10 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('+1.0*r[%s]'%(equation))
+                            # Each term counts once per unit of the coefficient of the specie in this reaction
+                            if gain_dict[species][equation]!=1:
+                                f.write('*%s'%(gain_dict[species][equation]))
+                                equation_flag+=1
                             equation_flag+=1
 
 
-- 
2.43.0


From bd8435a44af4fcf9a9db889ae45cf73345bf07ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:51 +0000
Subject: [PATCH 07/21] fix: apply every function conversion to a rate
 expression, not only the last, and convert D0 exponents

---
 rate_coeff_conversion.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index beae9fe..b44fa24 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -80,8 +80,9 @@ def convert_rate_mcm(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -141,11 +142,14 @@ def convert_rate_mcm_numba(rate_dict):
         ('dabs','numba_abs'),
         ('dsqrt','numba_sqrt'),
         ('dlog','numba_log'),
+        ('ABS','numba_abs'),
+        ('SQRT','numba_sqrt'),
         ('LOG','numba_log'),
         ('EXP','numba_exp')
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
@@ -161,8 +165,9 @@ def convert_rate_mcm_numba(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -248,6 +253,7 @@ def convert_rate_mcm_fortran(rate_dict):
         ]
     map_list=[('D-','E-'),
         ('D+','E+'),
+        ('D0','E+0'),
         ('D1','E+1'),
         ('D2','E+2'),
         ('D3','E+3'),
@@ -264,8 +270,9 @@ def convert_rate_mcm_fortran(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-- 
2.43.0


From 10f4bf1eeac00691dbc45381a677871eef30c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:43 +0000
Subject: [PATCH 08/21] fix: correct the misspelt names of the peroxy radical
 list

---
 Parse_eqn_file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 0963a3a..10afa79 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1788,7 +1788,7 @@ def write_RO2_indices(filename,species_dict2array):
     #The following is a list of species defined as contributing to total RO2 concetrations [old MCM]
     RO2_names = ['HOCH2CH2O2','HO1C3O2','HYPROPO2','IPROPOLO2','NBUTOLAO2','NBUTOLBO2','BUT2OLO2','IBUTOLBO2','IBUTOLCO2','TBUTOLO2','HO3C5O2', 
     'PE2ENEBO2','HM2C43O2','M2BUOL2O2','HM33C3O2','ME3BUOLO2','HO2M2C4O2','ME2BU2OLO2','PROL11MO2','H2M3C4O2','ME2BUOLO2','CYHEXOLAO2','MIBKAOHAO2',  
-    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2,'
+    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2',
     'IBUTALCO2','IC3H7O2','C4H9CO3','C4CHOBO2','NC4H9O2','ACO3','ACRO2','OCCOHCO2','CH3C2H2O2','MACO3','MACRO2','MACROHO2','C3DBCO3','C4CONO3O2','C4NO3COO2',
     'C4OCCOHCO2','COCCOH2CO2','SC4H9O2',  
     'IC4H9O2','TC4H9O2','PEAO2','PEBO2',  
@@ -1808,25 +1808,25 @@ def write_RO2_indices(filename,species_dict2array):
     'C4NO32M1O2','C4NO32M2O2','C4M3NO31O2',  
     'C4M3NO32O2','IPRCHOOA','ME3BU2OLO2',  
     'C4M2NO32O2','C4M2NO33O2','C65NO36O2',  
-    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2)', 
+    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2', 
     'C63NO32O2','C64OH5O2','C65OH4O2',  
     'C4ME2NO3O2','C4ME2OHO2','BZBIPERO2',  
     'C6H5CH2O2','TLBIPERO2','OXYLO2',  
     'OXYBIPERO2','MXYLO2','MXYBIPERO2','PXYLO2',  
     'PXYBIPERO2','C6H5C2H4O2','EBZBIPERO2',  
-    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2)',  
+    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2',  
     'TM123BO2','TM123BPRO2','TM124BO2',  
     'TM124BPRO2','TMBO2','TM135BPRO2','ETOLO2',  
     'OETLBIPRO2','METLBIPRO2','PETLBIPRO2',  
     'DM35EBO2','DMEBIPRO2','DE35TO2',  
     'DETLBIPRO2','NSTYRENO2','STYRENO2',  
     'C6H5CO3','C6H5O2','CH2CLO2','CHCL2O2',  
-    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2)',  
+    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2',  
     'C2CL3OHBO2','C2CL2OHO2','DICLETO2',  
     'CH2OHCL2O2','CL2OHCH2O2','CL12PRAO2',  
     'CL12PRBO2','CL12PRCO2','CH3CCL2O2',  
     'CHCL2CH2O2','CH2CLCH2O2','CH3CHCLO2',  
-    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2)',  
+    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2',  
     'CNO3CLO2','CCLOHCH2O2','CH2OHCCLO2',  
     'NBUTDAO2','NBUTDBO2','BUTDAO2','BUTDBO2',  
     'BUTDCO2','NISOPO2','ISOP34O2','CHOOCH2O2',  
@@ -1837,7 +1837,7 @@ def write_RO2_indices(filename,species_dict2array):
     'NBUACETCO2','SBUACETAO2','SBUACETBO2',  
     'MCOOTBO2','TBOCOCH2O2','CH3OCH2O2',  
     'DIETETO2','ETOC2O2','MTBEAO2','MTBEBO2',  
-    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2)',  
+    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2',  
     'ETBECO2','MO2EOLAO2','MO2EOLBO2',  
     'EOX2EOLAO2','EOX2EOLBO2','PR2OHMOXO2',  
     'H2C3OCO2','BOX2EOHAO2','BOX2EOHBO2',  
@@ -1854,13 +1854,13 @@ def write_RO2_indices(filename,species_dict2array):
     'LIMBO2','LIMCO2','NBCO2','BCAO2',  
     'BCBO2','BCCO2','DMMAO2','DMMBO2',  
     'DMCO2','CH3SCH2O2','HODMSO2','ETHOXO2',  
-    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3)',  
+    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3',  
     'CH3CHOHCO3','IPRHOCO3','IPRCHOO',  
     'BZEMUCCO3','BZEMUCO2','C5DIALO2','NPHENO2',  
     'PHENO2','CRESO2','NCRESO2','TLEMUCCO3',  
     'TLEMUCO2','C615CO2O2','OXYMUCCO3',  
     'OXYMUCO2','MC6CO2O2','NOXYOLO2','OXYOLO2',  
-    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2)',  
+    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2',  
     'NMXYOLO2','PXYMUCCO3','PXYMUCO2',  
     'C6M5CO2O2','NPXYOLO2','PXYOLO2','EBENZOLO2',  
     'NEBNZOLO2','EBZMUCCO3','EBZMUCO2',  
@@ -1873,7 +1873,7 @@ def write_RO2_indices(filename,species_dict2array):
     'TM124MUCO2','C7CO2M5O2','NTM135OLO2',  
     'TM135OLO2','TM135MUCO3','TM135MUCO2',  
     'C7M2CO5O2','OETLMUCCO3','OETLMUCO2',  
-    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3)',  
+    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3',  
     'METLMUCO2','C826CO3O2','METOLO2',  
     'NMETOLO2','PETLMUCCO3','PETLMUCO2',  
     'C7M6CO2O2','NPETOLO2','PETOLO2','DMEBMUCO3',  
-- 
2.43.0


From c78794ed9e548ea2e7332034de88d89e0929b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:43 +0000
Subject: [PATCH 09/21] fix: save the peroxy radical indices as integers when
 the mechanism has none

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 10afa79..d5e4a5d 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2126,7 +2126,7 @@ def write_RO2_indices(filename,species_dict2array):
         if name in species_dict2array:
             RO2_indices.append(species_dict2array[name])
             
-    np.save(filename+'_RO2_indices', RO2_indices)
+    np.save(filename+'_RO2_indices', np.array(RO2_indices, dtype=int))
     	
 def write_reactants_indices(filename,equations,num_species,species_dict2array,rate_dict_reactants,loss_dict):
 
-- 
2.43.0


From bb211f85fdbd97e33d2d7bcf5e75b105d21db8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 10/21] fix: advance the time of day across the batches of a
 simulation

Every batch restarts the solver at t=0, so the time of day used for photolysis
never got further than the first batch.
---
 Aerosol/f2py/ODE_solver.py | 2 +-
 ODE_solver.py              | 4 ++--
 f2py/ODE_solver.py         | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 89a5372..3d30075 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/ODE_solver.py b/ODE_solver.py
index a338b9e..707ef7c 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -80,7 +80,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         #pdb.set_trace()
         #Here we use the pre-created Numba based functions to arrive at our value for dydt
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -153,7 +153,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 58679f6..4399be4 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -69,7 +69,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         #pdb.set_trace()
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -110,7 +110,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here 
         # Calculate time of day
-        time_of_day_seconds=start_time+t
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
-- 
2.43.0


From 3b98dbfbecb6e93648fba41f1d6ab20d38247564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 11/21] fix: one output row for every batch when the simulation
 time is not a multiple of the batch step

int(simulation_time/batch_step) rounded down while the loop ran one batch more,
which wrote past the end of the output matrix.
---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 4 ++--
 Aerosol/f2py/ODE_solver.py                        | 4 ++--
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index ce71d93..6d724f2 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -206,7 +206,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     # the batch step change for increased speed
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step)) # A last batch that is not complete also counts
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -218,7 +218,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 3d30075..b95a30c 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=300.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step)) # A last batch that is not complete also counts
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -258,7 +258,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/ODE_solver.py b/ODE_solver.py
index 707ef7c..3b3e19e 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -226,7 +226,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=100.0 # seconds
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step)) # A last batch that is not complete also counts
 
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -236,7 +236,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
     #pdb.set_trace()
 
-    while total_time < simulation_time:
+    while time_step < number_steps:
 
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 4399be4..20f4e91 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -172,7 +172,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     #batch_step=100.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(simulation_time/batch_step)) # A last batch that is not complete also counts
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -181,7 +181,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
-- 
2.43.0


From e8354120a63b06016eb77419b65a88e697d4fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:39 +0000
Subject: [PATCH 12/21] fix: compare the name of water by value when the
 initial concentrations are set

---
 Aerosol/f2py/ODE_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index b95a30c..37de065 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -213,9 +213,9 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # Define species concentrations in ppb fr the gas phase
     # You have already set this in the front end script, and now we populate the y array with those concentrations
     for specie in species_initial_conc.keys():
-        if specie is not 'H2O':
+        if specie != 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]*Cfactor #convert from pbb to molcules/cc
-        elif specie is 'H2O':
+        elif specie == 'H2O':
             y0[species_dict2array[specie]]=species_initial_conc[specie]
 
     # Now add the initial condensed phase [including water]
-- 
2.43.0


From 1859c0ce815c987fcd0190001c66e5d4dce6d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:16 +0000
Subject: [PATCH 13/21] fix: make the loop variables of the OpenMP partitioning
 loop private

index1 and index2 were shared, so that two threads could write their size bins to
the same part of dy_dt, and the condensed water was summed up without a reduction.
---
 Parse_eqn_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index d5e4a5d..572b00c 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3331,6 +3331,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    aw_array(:)=0.0D0 \n') 
     f.write('    size_array(:)=0.0D0 \n') 
     f.write('    dy_dt(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('!$OMP PARALLEL DO &\n') 
     f.write('!$OMP& PRIVATE(size_step,total_mass),& \n') 
     f.write('!$OMP& PRIVATE(total_moles,y_mole_fractions,temp_array), & \n') 
@@ -3339,8 +3340,9 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_SOA_mass,total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(total_SOA_mass,size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
@@ -3547,6 +3549,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    aw_array(:)=0.0D0 \n') 
     f.write('    size_array(:)=0.0D0 \n') 
     f.write('    dy_dt(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('\n')     
     f.write('!$OMP PARALLEL DO &\n') 
     f.write('!$OMP& PRIVATE(size_step,total_mass),& \n') 
@@ -3556,8 +3559,9 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('!$OMP& PRIVATE(Kn,Inverse_Kn,Correction_part1, Correction_part2), & \n') 
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
-    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-- 
2.43.0


From fd0eeca0161f46a3486bb68dd0653d2018d2734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 14/21] fix: collect the SOA mass per size bin in the
 partitioning code without ignored species

The emitted Fortran used an array it did not declare and summed the total across
threads into an output that was never set.
---
 Parse_eqn_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 572b00c..41580af 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3306,6 +3306,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('                              Correction, Kn, dm_dt,& \n')
     f.write('                              k_i_m_t_part1, k_i_m_t \n') 
     f.write('    REAL(8), dimension(%s,%s) :: dy_dt_gas_matrix \n'%(num_species,num_bins))
+    f.write('    REAL(8), dimension(%s) :: total_SOA_mass_array \n'%(num_bins))
     f.write('    REAL(8) total_moles, density, diameter, radius, water_moles  \n')
     f.write('    REAL(8), dimension(%s) :: Pressure_eq, Cstar_i_m_t \n'%(num_species)) 
     f.write('    REAL(8), dimension(%s) :: kelvin_factor,y_mole_fractions  \n'%(num_species))
@@ -3342,11 +3343,11 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
     f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt,index1,index2), & \n') 
     f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
-    f.write('!$OMP& SHARED(total_SOA_mass,size_array), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array) \n') 
+    f.write('!$OMP& SHARED(dy_dt_gas_matrix,aw_array,total_SOA_mass_array) \n') 
     f.write('    DO size_step=1,%s \n'%(num_bins)) 
     f.write('\n')     	
     f.write('        ! 1) Select a slice of y that represents this size bin \n') 
@@ -3361,7 +3362,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('        density_array(1:num_species)=density_input(1:num_species)\n') 
     f.write('        density_array(num_species+1)=core_density_array(size_step)\n') 
     f.write('\n')     	
-    f.write('        total_SOA_mass=total_SOA_mass+SUM(mass_array(1:num_species-1))\n') 
+    f.write('        total_SOA_mass_array(size_step)=SUM(mass_array(1:num_species-1))\n') 
     f.write('        total_water_cond_mass=total_water_cond_mass+mass_array(num_species)\n') 
     f.write('        aw_array(size_step)=temp_array(num_species)/total_moles  \n')     	
     f.write('        total_mass=SUM(mass_array(:))\n') 
@@ -3431,6 +3432,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    ENDDO \n') 
     f.write('!$OMP END PARALLEL DO \n') 
     f.write('   dy_dt(1:num_species)=dy_dt(1:num_species)-SUM(dy_dt_gas_matrix, DIM=2)  \n')
+    f.write('   total_SOA_mass=SUM(total_SOA_mass_array)*(1.0D12)  \n')
     f.write('\n')    		    
     f.write('end subroutine \n') 
     f.close()  
-- 
2.43.0


From 49f88fdeb1cfe9494a303d69fa435a07ede79066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:08 +0000
Subject: [PATCH 15/21] fix: leave out species without a SMILES entry instead
 of giving them the previous structure

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 41580af..c67e7af 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -344,6 +344,7 @@ def extract_smiles_species(output_dict, SMILES_filename):
                     species_SMILES=re.search(r'<smiles>(.*?)</smiles>',node.getElementsByTagName('smiles').item(0).toxml()).group(1)
                 except:
                     print('No SMILES entry for species ',species_name)
+                    continue
                 SMILES_dict[species_name]=species_SMILES
                 Pybel_object=pybel.readstring('smi',species_SMILES)
                 Pybel_object_dict[species_SMILES]=Pybel_object
-- 
2.43.0


From 31e29e252cf4e510f9dbeaba9cbe9410cc55361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 16/21] fix: keep the property arrays aligned with the
 condensing species when ignore_vp is False

---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index a39b786..bd43e5a 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -292,7 +292,7 @@ if __name__=='__main__':
     ignore_index_fortran=property_dict1['ignore_index_fortran'] 
     include_index=sorted(property_dict1['include_index']) # This is an array that captures compounds to be included in the partitioning calculations
     #pdb.set_trace()
-    if ignore_vp is True: # Remove those comounds for which there is no vapour pressure data OR are too volatile 
+    if len(include_index) < num_species: # Remove those comounds for which there is no vapour pressure data OR [if ignore_vp is True] are too volatile 
         y_density_array=numpy.array(y_density_array)[include_index].tolist()
         y_mw=numpy.array(y_mw)[include_index].tolist()
         sat_vp=numpy.array(sat_vp)[include_index].tolist()
-- 
2.43.0


From 2f3e7a8bbd902fbc0f5faa5dd535827868e8eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:49 +0000
Subject: [PATCH 17/21] fix: save the number of equations that a run from
 existing files loads

---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index bd43e5a..b1d5f1d 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -200,6 +200,8 @@ if __name__=='__main__':
             pickle.dump(species_dict2array, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_species_dict.pickle', 'wb') as handle:
             pickle.dump(species_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
+        with open(filename+'_equations.pickle', 'wb') as handle:
+            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_Pybel_object_dict.pickle', 'wb') as handle:
             pickle.dump(Pybel_object_dict, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_SMILES_dict.pickle', 'wb') as handle:
-- 
2.43.0


From bbc21e9dea4cea628511fa9de96444d47ef09dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:51 +0000
Subject: [PATCH 18/21] fix: let the fixed yield simulation start from existing
 files

---
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index f682fa5..7604361 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -168,7 +168,8 @@ if __name__=='__main__':
         species_dict2array=outputdict['species_dict2array']
         num_species=outputdict['species_number']      
         SMILES_dict=outputdict['SMILES_dict']  
-        concentration_dict=outputdict['concentration_dict']
+        # Key the yields by SMILES: Pybel objects loaded from different files are different keys
+        concentration_dict={smiles:outputdict['concentration_dict'][Pybel_object] for smiles, Pybel_object in Pybel_object_dict.items()}
         # Now calculate all properties that dictate gas-to-particle partitioning
         print("Calculating properties that dictate gas-to-particle partitioning")
         property_dict1=Property_calculation.Pure_component1(num_species,species_dict,
@@ -210,8 +211,6 @@ if __name__=='__main__':
             species_dict2array = pickle.load(f) 
         with open(filename+'_species_dict.pickle', 'rb') as f:
             species_dict = pickle.load(f) 
-        with open(filename+'_equations.pickle', 'rb') as f:
-            equations = pickle.load(f) 
         with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
             Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
@@ -262,7 +261,7 @@ if __name__=='__main__':
     total_voc_ppb = total_voc_mass*(273.15+(temp-273.15))/(12.187*voc_mw)#total_voc_mass** ( (22.41 * temp / 273.0) / voc_mw )  #Assuming molecular weight alpha-pinene   
     y_gas=[0.0]*num_species
     for smiles, Pybel_object in Pybel_object_dict.items():
-        y_gas[species_dict2array[smiles]]=concentration_dict[Pybel_object]*total_voc_ppb*2.46E10 # ppb to molecules per cc [assuming 25C and 1atm - make this variable]
+        y_gas[species_dict2array[smiles]]=concentration_dict[smiles]*total_voc_ppb*2.46E10 # ppb to molecules per cc [assuming 25C and 1atm - make this variable]
     
     # Add water    
     sat_vap_water = numpy.exp((-0.58002206E4 / temp) + 0.13914993E1 - (0.48640239E-1 * temp) + (0.41764768E-4 * (temp**2.0E0))- (0.14452093E-7 * (temp**3.0E0)) + (0.65459673E1 * numpy.log(temp)))
-- 
2.43.0


From 7b4da10c0e5e1f845a8cd2a68cf60d42bf220bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:52 +0000
Subject: [PATCH 19/21] fix: accept blanks between a coefficient and its
 species

---
 Parse_eqn_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index c67e7af..13f516b 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -177,7 +177,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
         product_step=0
 
         for reactant in reactants: #This are the 'reactants' in this equation
-            reactant=reactant.split()[0] #remove all tables, newlines, whitespace
+            reactant=''.join(reactant.split()) #remove all tables, newlines, whitespace [also between a coefficient and its species]
             #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
             # - Extract stochiometry and unique reactant identifier
             #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
@@ -235,7 +235,8 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
         if len(products) > 0: 
             for product in products: #This are the 'reactants' in this equation
                 try:
-                    product=product.split()[0] #remove all tables, newlines, whitespace
+                    product_parts=product.split()
+                    product=product_parts[0]+''.join(product_parts[1:]) #remove all tables, newlines, whitespace [no product raises]
 
 		            #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 		            # - Extract stochiometry and unique product identifier
-- 
2.43.0


From 70060549486852dfcb3fab26d1c3a65636e0054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:31 +0000
Subject: [PATCH 20/21] fix: read a coefficient written with a trailing point

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 13f516b..ea651a5 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -182,7 +182,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             # - Extract stochiometry and unique reactant identifier
             #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
             try: #Now try to extract a stochiometric coefficient if given
-                temp=re.findall(r"[-+]?\d*\.\d+|\d+|\d+",reactant) #This extracts all numbers either side 
+                temp=re.findall(r"[-+]?\d*\.\d+|\d+\.?|\d+",reactant) #This extracts all numbers either side 
                                                                    #of some text. 
                 stoich=temp[0] #This selects the first number extracted, if any.
                 # Now need to work out if this value is before the variable
@@ -242,7 +242,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
 		            # - Extract stochiometry and unique product identifier
 		            #++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++
                     try: #Now try to extract a stochiometric coefficient if given
-                        temp=re.findall(r"[-+]?\d*\.\d+|\d+|\d+",product) #This extracts all numbers either side 
+                        temp=re.findall(r"[-+]?\d*\.\d+|\d+\.?|\d+",product) #This extracts all numbers either side 
                         #of some text. 
                         stoich=temp[0] #This selects the first number extracted, if any.
                         # Now need to work out if this value is before the variable
-- 
2.43.0


From f723dc2f2091e218fe892a9bd3e32484ba3da2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:02 +0000
Subject: [PATCH 21/21] fix: composition plot of a fixed-yield run when
 compounds are left out of condensation

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index 6d724f2..74d7ec9 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -296,7 +296,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     #In a future release I will add this as a seperate module
     if with_plots:
         try:
-            Plotting.stacked_bar(t_array,y_matrix,num_species_condensed,num_bins,numpy.array(y_mw[include_index]),NA)
+            # y_mw only holds condensing compounds. The plot expects as many gas phase entries before the size bins
+            Plotting.stacked_bar(t_array,y_matrix[:,num_species-num_species_condensed:],num_species_condensed,num_bins,numpy.array(y_mw),NA)
         except:
             print("There is a problem using Matplotlib in your environment. If using this within a docker container, you will need to transfer the data to the host or configure your container to enable graphical displays. More information can be found at http://wiki.ros.org/docker/Tutorials/GUI ")
         
\ No newline at end of file
-- 
2.43.0

