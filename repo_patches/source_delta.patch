From 3e91a4377b3d27cb7291dc519e1281c70e90af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 01/40] fix: honour -rand_seed instead of reseeding from the
 clock

---
 src/random.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index 1aeeb6a..50d5c4f 100644
--- a/src/random.c
+++ b/src/random.c
@@ -116,11 +116,16 @@ setRandomSeedFromString ( char *str )
      values. Also need to make this a function of SEED_SIZE and not
      hard coded as '3'. */  
   
-  sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] );	
+  if ( sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] ) != SEED_SIZE )
+    Abort( "Random seed must be given as three integers: N:N:N" );
   
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  /* Without this the first random number drawn would throw this seed
+     away and use one from the clock and process ids instead. */
+  seeded = 1;
+
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
-- 
2.43.0


From ef27ae7a21640751fa70ee84a19633b1a32b0635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 02/40] fix: do not forget an interrupt that comes while the
 handler is set up

---
 src/signal-handler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signal-handler.c b/src/signal-handler.c
index 652e612..9e3b00a 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -264,8 +264,10 @@ setUpCtrlC(  )
     Registers the signal handler for the SIGINT signal which is
     generated by pressing CRTL-C.
   */
-  signal(SIGINT, signalHandlerSIGINT );
+  /* Clear the flag before the handler can set it, or else an interrupt
+     that arrives right here would be forgotten. */
   gInterrupt = FALSE;
+  signal(SIGINT, signalHandlerSIGINT );
 
 }  /* setUpCtrlC */
 /**********************************************************************/
-- 
2.43.0


From 4ac85ac7e01082a83c6fa0dd68097e02cf86c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 03/40] fix: an interrupt before the first epoch still gives a
 solution

---
 src/pomdp-solve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4bb6179..93ef386 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1018,7 +1018,10 @@ solvePomdp( PomdpSolveParams param )
 
   fprintf( param->report_file, "++++++++++++++++++++++++++++++++++++++++\n" );
 
-  while(( gInterrupt == FALSE )
+  /* An interrupt takes effect at the end of an epoch.  One that comes
+     before the first epoch has to wait for it, since until then there
+     is no solution to give. */
+  while((( gInterrupt == FALSE ) || ( param->cur_epoch == 0 ))
         && ( done == FALSE )) {
 
     /* Here we see if we want to save the previous solution to a
-- 
2.43.0


From d4f4e0fcad09e5daf2bde7c591731b6a5b5f2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 04/40] fix: failed or interrupted writes neither destroy the
 last solution nor pass for success

---
 src/alpha.c       | 11 ++++----
 src/alpha.h       |  2 +-
 src/belief.c      | 11 ++++----
 src/belief.h      |  2 +-
 src/global.c      | 66 +++++++++++++++++++++++++++++++++++++++++++++++
 src/global.h      |  7 +++++
 src/main.c        |  5 ++--
 src/pg.c          | 21 ++++++++++-----
 src/pg.h          |  4 +--
 src/pomdp-solve.c | 33 +++++++++++++++++-------
 src/pomdp-solve.h |  2 +-
 11 files changed, 130 insertions(+), 34 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..0dbcd07 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1157,26 +1157,27 @@ writeAlphaList( FILE *file, AlphaList list )
 
 } /* writeAlphaList */
 /**********************************************************************/
-void 
+int 
 saveAlphaList( AlphaList list, char *filename ) 
 {
   /*
     Write the alpha list out to a file in the format that
     readAlphaList() will read them in.  It is not a very pretty format,
-    but makes reading it in trivial.
+    but makes reading it in trivial.  Returns TRUE if this succeeded.
   */
    FILE *file;
+   char *temp_filename;
    
-   if ((file = fopen(filename , "w")) == NULL) {
+   if ((file = openOutputFile( filename, &temp_filename )) == NULL) {
      fprintf(gStdErrFile, 
              "** Error: The alpha vector file: %s cannot be opened.\n",
              filename);
-     return;
+     return ( FALSE );
    }
    
    writeAlphaList( file, list );
    
-   fclose( file );
+   return ( closeOutputFile( file, filename, temp_filename ));
 }  /* saveAlphaList */
 /**********************************************************************/
 void 
diff --git a/src/alpha.h b/src/alpha.h
index a565a7b..42dc00a 100644
--- a/src/alpha.h
+++ b/src/alpha.h
@@ -392,7 +392,7 @@ extern void writeAlphaList( FILE *file, AlphaList list );
 
 /* Write the alpha list out to a file in the format that
   readAlphaList() will read them in.   */
-extern void saveAlphaList( AlphaList list, 
+extern int saveAlphaList( AlphaList list, 
                             char *filename );
 
 /* Takes the union of the two lists sent in and returns the union in
diff --git a/src/belief.c b/src/belief.c
index 0b70959..19dfe2b 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -133,26 +133,27 @@ writeBeliefList( FILE *file, BeliefList belief_list )
    
 }  /* writeBeliefList */
 /**********************************************************************/
-void 
+int 
 saveBeliefList( BeliefList list, char *filename ) 
 {
   /*
     Write the belief list out to a file in the format that
     readBeliefList() will read them in.  It is not a very pretty format,
-    but makes reading it in trivial.
+    but makes reading it in trivial.  Returns TRUE if this succeeded.
   */
    FILE *file;
+   char *temp_filename;
    
-   if ((file = fopen(filename , "w")) == NULL) {
+   if ((file = openOutputFile( filename, &temp_filename )) == NULL) {
      fprintf(gStdErrFile, 
              "** Error: The belief list file: %s cannot be opened.\n",
              filename);
-     return;
+     return ( FALSE );
    }
    
    writeBeliefList( file, list );
    
-   fclose( file );
+   return ( closeOutputFile( file, filename, temp_filename ));
 }  /* saveBeliefList */
 /**********************************************************************/
 void 
diff --git a/src/belief.h b/src/belief.h
index b7ad4e1..37eec89 100644
--- a/src/belief.h
+++ b/src/belief.h
@@ -51,7 +51,7 @@ extern void destroyBelief( double *b );
 extern int sameBelief( double *b1, double *b2, double epsilon );
 extern BeliefList readBeliefList( char *filename, int max_beliefs ); 
 extern void writeBeliefList( FILE *file, BeliefList belief_list );
-extern void saveBeliefList( BeliefList list, char *filename );
+extern int saveBeliefList( BeliefList list, char *filename );
 extern void showBeliefList( BeliefList list );
 extern BeliefList readBeliefList( char *filename, int max );
 extern BeliefList newBeliefNode( double *b );
diff --git a/src/global.c b/src/global.c
index fad5f43..20b73b7 100644
--- a/src/global.c
+++ b/src/global.c
@@ -15,6 +15,7 @@
 #include <string.h>
 #include <math.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include <ctype.h>
 
 #include "mdp/mdp.h"
@@ -102,6 +103,71 @@ removeFile( char *filename )
 
 }  /* removeFile */
 /**********************************************************************/
+FILE *
+openOutputFile( char *filename, char **temp_filename ) 
+{
+  /* 
+     Opens a file that is to replace 'filename', without touching what
+     'filename' has in it now.  Only closeOutputFile() puts it there,
+     and only when it is complete, so neither a failed write nor an
+     abnormal termination can cost us the previous contents.  Something
+     that is not a regular file (e.g., a device) is written directly.
+     Returns NULL if it cannot be opened.
+  */
+  struct stat info;
+  FILE *file;
+
+  *temp_filename = NULL;
+
+  if (( lstat( filename, &info ) == 0 ) && ( ! S_ISREG( info.st_mode )))
+    return ( fopen( filename, "w" ));
+
+  *temp_filename = (char *) XMALLOC( strlen( filename ) 
+                                     + strlen( TEMP_FILE_SUFFIX ) + 1 );
+  strcpy( *temp_filename, filename );
+  strcat( *temp_filename, TEMP_FILE_SUFFIX );
+
+  if (( file = fopen( *temp_filename, "w" )) == NULL ) {
+    XFREE( *temp_filename );
+    *temp_filename = NULL;
+  }
+
+  return ( file );
+}  /* openOutputFile */
+/**********************************************************************/
+int 
+closeOutputFile( FILE *file, char *filename, char *temp_filename ) 
+{
+  /* 
+     Ends what openOutputFile() began.  Returns TRUE if all that was
+     written is now in 'filename', otherwise complains, leaves
+     'filename' as it was and returns FALSE.
+  */
+  int success;
+
+  success = ( ferror( file ) == 0 );
+
+  if ( fclose( file ) != 0 )
+    success = FALSE;
+
+  if ( temp_filename != NULL ) {
+
+    if ( success && ( rename( temp_filename, filename ) != 0 ))
+      success = FALSE;
+
+    if ( ! success )
+      removeFile( temp_filename );
+
+    XFREE( temp_filename );
+  }
+
+  if ( ! success )
+    fprintf( gStdErrFile, 
+             "** Error: The file: %s could not be written.\n", filename );
+
+  return ( success );
+}  /* closeOutputFile */
+/**********************************************************************/
 void 
 strupr ( char *string )
 {
diff --git a/src/global.h b/src/global.h
index 064e873..814300a 100644
--- a/src/global.h
+++ b/src/global.h
@@ -66,6 +66,10 @@
    use this for the length. */
 #define MAX_FILENAME_LENGTH          100
 
+/* What an output file is called, after its proper name, until it is
+   complete. */
+#define TEMP_FILE_SUFFIX             ".tmp"
+
 /*******************************************************************/
 /**************              MACROS                 ****************/
 /*******************************************************************/
@@ -281,5 +285,8 @@ extern int getPid(  );
 /* Just a wrapper to the UN*X unlink() function to isolate it in case
    this gets ported to another platform.  */
 extern void removeFile( char *filename );
+extern FILE *openOutputFile( char *filename, char **temp_filename );
+extern int closeOutputFile( FILE *file, char *filename, 
+                            char *temp_filename );
 
 #endif
diff --git a/src/main.c b/src/main.c
index 0eb81c8..ea5f88e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -48,6 +48,7 @@
 int 
 main( int argc, char **argv ) {
   PomdpSolveParams param;
+  int success;
   
   /* Handles configuration file and command line options. */
   param = parseCmdLineAndCfgFile( argc, argv );
@@ -60,14 +61,14 @@ main( int argc, char **argv ) {
   initPomdpSolve( param );
   
   /* And away we go... */
-  solvePomdp( param );
+  success = solvePomdp( param );
 
   /* Let's make all nice afterwards for all other things. Note that
      this deallocates the space for 'param' and its 'opts'
      component. */
   cleanUpPomdpSolve( param );
 
-  return( 0 );
+  return( success ? 0 : 1 );
 
 } /* main */
 /**********************************************************************/
diff --git a/src/pg.c b/src/pg.c
index 1defd8d..b83cb7d 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -527,22 +527,27 @@ PG_display( PG pg  )
 } /* PG_display */
 
 /**********************************************************************/
-void 
+int 
 PG_write( PG pg, char *filename  ) 
 {
+  /*
+    Writes the policy graph to a file.  Returns TRUE if this
+    succeeded.
+  */
   FILE *file;
+  char *temp_filename;
 
   Assert( pg != NULL && filename != NULL, "Bad parameters" );
 
-  if (( file = fopen( filename , "w" )) == NULL) 
+  if (( file = openOutputFile( filename, &temp_filename )) == NULL) 
     {
 	 Warning( "Cannot open policy graph file for writing." );
-	 return;
+	 return ( FALSE );
     }
   
   PG_printf( pg, file );
   
-  fclose( file );
+  return ( closeOutputFile( file, filename, temp_filename ));
 }  /* PG_write */
 
 /**********************************************************************/
@@ -664,21 +669,23 @@ APG_displayPolicyGraph( FILE *file, AlphaList list )
 }  /* displayPolicyGraph */
 
 /**********************************************************************/
-void 
+int 
 APG_writePolicyGraph( AlphaList list, char *filename ) 
 {
   /*
     Displays the policy graph of a set of vectors to the filename
-    specified. 
+    specified. Returns TRUE if this succeeded.
   */
   PG pg;
+  int success;
 
   pg = PG_ConstructorFromAlphaList( list );
 
-  PG_write( pg, filename );
+  success = PG_write( pg, filename );
 
   PG_Destructor( pg );
 
+  return ( success );
 }  /* writePolicyGraph */
 
 /**********************************************************************/
diff --git a/src/pg.h b/src/pg.h
index 602f586..0581ccb 100644
--- a/src/pg.h
+++ b/src/pg.h
@@ -84,14 +84,14 @@ extern void PG_rand( PG pg );
 extern void PG_printf( PG pg, FILE *file  );
 extern PG PG_scanf( FILE *file, int verify );
 extern void PG_display( PG pg  );
-extern void PG_write( PG pg, char *filename  );
+extern int PG_write( PG pg, char *filename  );
 extern PG PG_read( char *filename, int verify  );
 
 extern PG PG_convertLPGToPG( LinkedPG old_pg );
 extern void PG_relink( PG pg, int* link_map, int max_idx );
 
 extern void APG_displayPolicyGraph( FILE *file, AlphaList list );
-extern void APG_writePolicyGraph( AlphaList list, char *filename );
+extern int APG_writePolicyGraph( AlphaList list, char *filename );
 extern void APG_showPolicyGraph( AlphaList list );
 
 extern void LPG_destroyNode( LinkedPG pg );
diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 93ef386..6fabfec 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -236,7 +236,7 @@ cleanUpPomdpSolve( PomdpSolveParams param )
   
 }  /* cleanUpPomdpSolve */
 /**********************************************************************/
-void 
+int 
 endPomdpSolve( PomdpSolveParams param,
 	       AlphaList solution ) 
 {
@@ -245,8 +245,11 @@ endPomdpSolve( PomdpSolveParams param,
      of the results of the program.  This is useful for running series
      of experiments and combining the results. Thus, we only output
      out final report if we are not being brief. 
+
+     Returns FALSE if the solution files could not be written.
   */
   AlphaList scaled_list;
+  int success;
 
   Assert( param != NULL && solution != NULL, 
           "Bad (NULL) parameters." );
@@ -258,22 +261,23 @@ endPomdpSolve( PomdpSolveParams param,
      structure. */
   if ( valuesRequireScaling() ) {
     scaled_list = makeScaledAlphaList( solution, param->update_count );
-    saveAlphaList( scaled_list, param->alpha_filename );
+    success = saveAlphaList( scaled_list, param->alpha_filename );
     destroyAlphaList( scaled_list );
   } /* if values required scaling */
 
   /* Otherwise, no scaling required so just write out the list. */
   else
-    saveAlphaList( solution, param->alpha_filename );
+    success = saveAlphaList( solution, param->alpha_filename );
 
-  APG_writePolicyGraph( solution, param->pg_filename );
+  if ( ! APG_writePolicyGraph( solution, param->pg_filename ))
+    success = FALSE;
   
   if ( gVerbose[V_POMDP_SOLVE] ) {
     fprintf( param->report_file, 
              "The solution to the (in)finite horizon is:\n" );
     displayAlphaList( param->report_file, solution );
   }
-  else {
+  else if ( success ) {
     fprintf(param->report_file, 
             "++++++++++++++++++++++++++++++++++++++++\n");
     fprintf(param->report_file,
@@ -286,6 +290,7 @@ endPomdpSolve( PomdpSolveParams param,
   /* Show all program stats depending upon execution parameters.. */
   reportStats( param->stat );
  
+  return ( success );
 }  /* endPomdpSolve */
 /**********************************************************************/
 AlphaList 
@@ -959,14 +964,16 @@ improveV( AlphaList prev_alpha_list,
 
 }  /* improveV */
 /**********************************************************************/
-void 
+int 
 solvePomdp( PomdpSolveParams param ) 
 {
   /*
     If horizon < 0 then it will run until it converges or until
     SIGINT signal is received.  If initial_policy is NULL, then the default
-    initial policy will be used.
+    initial policy will be used.  Returns FALSE if the solution could
+    not be written to its files.
   */
+  int success;
   AlphaList prev_alpha_list = NULL;
   AlphaList next_alpha_list;
   int done = FALSE;
@@ -1146,7 +1153,7 @@ solvePomdp( PomdpSolveParams param )
      time. Also write the solution files, but note that this must be
      done before we clear the prev_alpha_list to ensure policy graph
      information is preserved. */
-  endPomdpSolve( param, next_alpha_list );
+  success = endPomdpSolve( param, next_alpha_list );
   
   /* Get rid of previous and next value functions.  Note that at this
      point there are obs_source pointers from next_alpha_list into
@@ -1157,8 +1164,14 @@ solvePomdp( PomdpSolveParams param )
   destroyAlphaList( prev_alpha_list );
 
   /* We were writing out a backup file after each iteration, but now
-     that we are done, remove it. */
-  removeFile( param->backup_file );
+     that we are done, remove it, unless it is all there is. */
+  if ( success )
+    removeFile( param->backup_file );
+  else
+    fprintf( gStdErrFile, 
+             "** Error: The solution could not be saved. (See %s)\n",
+             param->backup_file );
 
+  return ( success );
 }  /* solvePomdp */
 /**********************************************************************/
diff --git a/src/pomdp-solve.h b/src/pomdp-solve.h
index 6bca414..f7d5a07 100644
--- a/src/pomdp-solve.h
+++ b/src/pomdp-solve.h
@@ -35,7 +35,7 @@ extern void initPomdpSolve( PomdpSolveParams param );
 
 extern void cleanUpPomdpSolve( PomdpSolveParams param );
 
-extern void solvePomdp( PomdpSolveParams param );
+extern int solvePomdp( PomdpSolveParams param );
 
 /* For now our default policy is just all zeroes.  */
 extern AlphaList getDefaultInitialPolicy( );
-- 
2.43.0


From 75034d1e43d04fe0b3ab9fd36315ca31784d8823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 05/40] fix: the time limit ends the run, and cannot go off
 before or after it is meaningful

---
 src/pomdp-solve.c    |  9 +++++----
 src/signal-handler.c | 29 +++++++++++++++++++++++++++--
 src/signal-handler.h |  2 ++
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 6fabfec..8eecac5 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -163,10 +163,6 @@ initPomdpSolve( PomdpSolveParams param )
    /* Set up anything we need in the LP stuff.  */
    initLpInterface( param );
 
-   /* If an upper limit on time was specified on the command line,
-      then set up a timer to signal us when time is up. */
-   setUpIntervalTimer( param->max_secs );
-   
    /* Set the virtual memory limit here.  This will help to stop
       run-away processes.  */
    setMemoryLimit( param->memory_limit );
@@ -175,6 +171,10 @@ initPomdpSolve( PomdpSolveParams param )
       current context.  Set the parameter context here. */
    setInterruptParamContext( param );
 
+   /* If an upper limit on time was specified on the command line,
+      then set up a timer to signal us when time is up. */
+   setUpIntervalTimer( param->max_secs );
+
    /* Set it up to catch CTRL-C */
    setUpCtrlC();
 
@@ -1148,6 +1148,7 @@ solvePomdp( PomdpSolveParams param )
   }  /* while( done == FALSE && gInterrupt = FALSE ) */
   
   gInterrupt = FALSE;
+  cancelIntervalTimer( param->max_secs );
   
   /* Give some final tally information, such as solution location and
      time. Also write the solution files, but note that this must be
diff --git a/src/signal-handler.c b/src/signal-handler.c
index 9e3b00a..daf3b09 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -174,6 +174,8 @@ signalHandlerSIGVTALRM( int sig )
           "SIGVTALRM received, but no parameter context was set." );
 
   reportSIGVTALRM( gInterruptParamContext );
+
+  exit ( 1 );
    
 }  /* signalHandlerSIGVTALRM */
 /**********************************************************************/
@@ -211,14 +213,37 @@ setUpIntervalTimer( int secs )
    value.it_value.tv_sec = secs;
    value.it_value.tv_usec = 0;
 
+   /* The handler has to be there before the timer can go off. */
+   signal(SIGVTALRM, signalHandlerSIGVTALRM);
+
    if ( setitimer( ITIMER_VIRTUAL, &value, NULL ) )
       Abort( "Trouble in function call to setitimer().\n");
 
-   signal(SIGVTALRM, signalHandlerSIGVTALRM);
-
 }  /* setUpIntervalTimer */
 /**********************************************************************/
 void 
+cancelIntervalTimer( int secs ) 
+{
+  /*  
+      Undoes setUpIntervalTimer(), once there is a solution: writing it
+      and deallocating things afterwards should not be cut short.
+  */
+   struct itimerval value;
+
+   if ( secs <= 0 )
+     return;
+
+   signal(SIGVTALRM, SIG_IGN);
+
+   value.it_interval.tv_sec = 0;
+   value.it_interval.tv_usec = 0;
+   value.it_value = value.it_interval;
+
+   setitimer( ITIMER_VIRTUAL, &value, NULL );
+
+}  /* cancelIntervalTimer */
+/**********************************************************************/
+void 
 setMemoryLimit( int mem_size_limit ) 
 {
   /* 
diff --git a/src/signal-handler.h b/src/signal-handler.h
index 86a2734..3caf233 100644
--- a/src/signal-handler.h
+++ b/src/signal-handler.h
@@ -37,6 +37,8 @@ extern int gInterrupt;
    maximum number of seconds we will allow the program to run for.  */
 extern void setUpIntervalTimer( int secs );
 
+extern void cancelIntervalTimer( int secs );
+
 /* Sets the hard virtual memory size limit.  If process exceeds this
    limit, then the SIGSEGV signal will be generated.  We also try to
    catch this signal, but we are carefull not to assume that every
-- 
2.43.0


From d88530b9d31f6f979de32f48958a31b0e185c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 06/40] fix: policy graph links without a node are written the
 way they are read

---
 src/pg.c | 4 ++--
 src/pg.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index b83cb7d..2200c2f 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -486,9 +486,9 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
+	   if ( pg->next[n][z] >= 0 )
 		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
+	   else if ( pg->next[n][z] == INVALID_NODE )
 		fprintf( file, "%s ", INVALID_NODE_STR );
 	   else
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
diff --git a/src/pg.h b/src/pg.h
index 0581ccb..69c84c0 100644
--- a/src/pg.h
+++ b/src/pg.h
@@ -25,8 +25,8 @@
 #define INVALID_NODE -1
 #define NO_INFO_NODE -2
 
-#define INVALID_NODE_STR "X"
-#define NO_INFO_NODE_STR "-"
+#define INVALID_NODE_STR "-"
+#define NO_INFO_NODE_STR "X"
 
 /* This linked list data structure is used for arbitarily large policy
    graphs.
-- 
2.43.0


From 79215d9a589d5aee2f8218f13c8e58d22c96d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 07/40] fix: reject malformed or truncated vector, belief and
 policy graph files

---
 src/alpha.c  | 29 +++++++++++++++++++++--------
 src/belief.c |  9 ++++++---
 src/pg.c     | 25 ++++++++++++++++++++-----
 3 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 0dbcd07..436050c 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1094,7 +1094,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, count;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1116,21 +1116,34 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     count = fscanf( file, "%d", &a );
+     if (( count == EOF ) && ( ! ferror( file )))
        break;
      alpha = newAlpha();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
-         fprintf(gStdErrFile, 
-                 "** Error: Alpha vector file format incorrect.\n");
-         return ( NULL );
-       }
+     for ( i = 0; ( count == 1 ) && ( i < gNumStates ); i++ )
+       count = fscanf( file, "%lf", &( alpha[i] ));
+
+     if ( count != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       XFREE( alpha );
+       destroyAlphaList( list );
+       fclose( file );
+       return ( NULL );
+     }
      
      appendAlphaList( list, alpha, a );
    }  /* while */
    
    fclose( file );
+
+   if ( sizeAlphaList( list ) == 0 ) {
+     fprintf(gStdErrFile, 
+             "** Error: There are no vectors in the alpha vector file.\n");
+     destroyAlphaList( list );
+     return ( NULL );
+   }
    
    return ( list );
 }  /* readAlphaList */
diff --git a/src/belief.c b/src/belief.c
index 19dfe2b..74063aa 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -185,7 +185,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i;
+   int i, count;
    double *b;
    BeliefList list = NULL;
    
@@ -209,14 +209,17 @@ readBeliefList( char *filename, int max )
      b = newBelief();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+       if (( count = fscanf( file, "%lf", &( b[i] ))) != 1 ) {
+
+	    XFREE( b );
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if ( i > 0 ) {
+	    if (( i > 0 ) || ( count != EOF ) || ferror( file )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
+		 fclose( file );
 		 return ( NULL );
 	    }
 	    else 
diff --git a/src/pg.c b/src/pg.c
index 2200c2f..8aec10a 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -166,15 +166,18 @@ LPG_scanf( FILE *file, int verify ) {
   int z;
   char int_str[MAX_MSG_LENGTH];
   int count = 0;
+  int matched;
+  char extra;
 
   neighbor = (int *) XMALLOC( gNumObservations * sizeof( int ));
 
    while( 1 ) {
 
-     if( fscanf( file, "%d", &id ) == EOF )
+     matched = fscanf( file, "%d", &id );
+     if(( matched == EOF ) && ( ! ferror( file )))
        break;
 
-     if( fscanf( file, "%d", &action ) == EOF ) {
+     if(( matched != 1 ) || ( fscanf( file, "%d", &action ) != 1 )) {
 	  LPG_destroy( lpg );
 	  Warning( "Not enough values in the policy graph file.");
 	  return( NULL );
@@ -190,7 +193,7 @@ LPG_scanf( FILE *file, int verify ) {
 	
 	for( z = 0; z < gNumObservations; z++ ) {
 	 
-	  if ( fscanf( file, "%s", int_str) == EOF )
+	  if ( fscanf( file, "%15s", int_str) != 1 )
 	    {
 		 LPG_destroy( lpg );
 		 Warning("Not enough values in the policy graph file." );
@@ -201,8 +204,12 @@ LPG_scanf( FILE *file, int verify ) {
 	    neighbor[z] = INVALID_NODE;
 	  else if ( strcmp( int_str, NO_INFO_NODE_STR ) == 0 )
 	    neighbor[z] = NO_INFO_NODE;
-	  else
-	    neighbor[z] = atoi( int_str );
+	  else if ( sscanf( int_str, "%d%c", &neighbor[z], &extra ) != 1 )
+	    {
+		 LPG_destroy( lpg );
+		 Warning( "Bad link in the policy graph file." );
+		 return NULL;
+	    }
 	}
 
 	lpg = LPG_addNode( lpg, id, action, neighbor );
@@ -212,6 +219,14 @@ LPG_scanf( FILE *file, int verify ) {
   XFREE( neighbor );
 
   Assert( count > 0, "Node pg nodes read." );
+
+  /* The ids are used as indices. */
+  for( id = 0; id < count; id++ )
+    if( LPG_findNode( lpg, id ) == NULL ) {
+	 LPG_destroy( lpg );
+	 Warning( "Bad node ids in the policy graph file." );
+	 return( NULL );
+    }
   
   /* DO sanity checking, but only if requested. */
   if ( verify
-- 
2.43.0


From c96c1a46595e6a43dba5d57451a71274febb5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 08/40] fix: the tools report unreadable input and failed
 output in their exit status

---
 src/utils.c | 80 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 4730ec2..d3c441b 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -576,6 +576,7 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
   int i;
 
   FILE *file;
+  char *temp_filename;
   AlphaList alpha1_list;
   AlphaList alpha2_list;
   BeliefList belief_list;
@@ -601,7 +602,7 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha1 file: %s cannot be read.\n",
 		  alpha1_filename);
-    return;
+    exit( -1 );
   }
 
   alpha2_list = readAlphaList( alpha2_filename, 0 );
@@ -609,20 +610,18 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  alpha2_filename);
-    return;
+    exit( -1 );
   }
 
   belief_list = readBeliefList( belief_filename, 0 );
-  if ( belief_list == NULL ) {
-    fclose( file );
-    return;
-  }
+  if ( belief_list == NULL )
+    exit( -1 );
 
-  if ((file = fopen( out_filename , "w")) == NULL) {
+  if ((file = openOutputFile( out_filename, &temp_filename )) == NULL) {
     fprintf(gStdErrFile, 
 		  "** Error: The output file: %s cannot be opened.\n",
 		  out_filename);
-    return;
+    exit( -1 );
   }
 
 
@@ -780,6 +779,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
   XFREE( alpha2_uniquely_best );
   XFREE( alpha2_non_uniquely_best );
 
+  if ( ! closeOutputFile( file, out_filename, temp_filename ))
+    exit( -1 );
+
 } /* UTIL_fooNeedsAName */
 
 
@@ -801,6 +803,7 @@ UTIL_mapBeliefList( char *belief_filename,
   AlphaList alpha_list, a_ptr;
   AlphaList **alpha_best;
   FILE *file;
+  char *temp_filename;
   int a_num, b_num, i, id;
   double** alpha_values;
   double* alpha_best_values;
@@ -808,24 +811,21 @@ UTIL_mapBeliefList( char *belief_filename,
   int **alpha_uniquely_best;
   int **alpha_non_uniquely_best;
 
-  if ((file = fopen( map_filename , "w")) == NULL) {
-    fprintf(gStdErrFile, 
-             "** Error: The mapping file: %s cannot be opened.\n",
-		  map_filename);
-    return;
-  }
-  
   belief_list = readBeliefList( belief_filename, 0 );
-  if ( belief_list == NULL ) {
-    fclose( file );
-    return;
-  }
+  if ( belief_list == NULL )
+    exit( -1 );
 
   alpha_list = readAlphaList( alpha_filename, 0 );
   if ( alpha_list == NULL ) {
     destroyBeliefList( belief_list );
-    fclose( file );
-    return;
+    exit( -1 );
+  }
+
+  if ((file = openOutputFile( map_filename, &temp_filename )) == NULL) {
+    fprintf(gStdErrFile, 
+             "** Error: The mapping file: %s cannot be opened.\n",
+		  map_filename);
+    exit( -1 );
   }
   
   /* Print the file preamble */
@@ -918,6 +918,9 @@ UTIL_mapBeliefList( char *belief_filename,
   destroyBeliefList( belief_list );
   destroyAlphaList( alpha_list );
 
+  if ( ! closeOutputFile( file, map_filename, temp_filename ))
+    exit( -1 );
+
 }  /* UTIL_mapBeliefList */
 
 /**********************************************************************/
@@ -936,12 +939,13 @@ UTIL_sortAlphaFile( char *in_alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha file: %s cannot be read.\n",
 		  in_alpha_filename);
-    return;
+    exit( -1 );
   }
 
   sortAlphaList( in_alpha_list );
 
-  saveAlphaList( in_alpha_list, out_alpha_filename );
+  if ( ! saveAlphaList( in_alpha_list, out_alpha_filename ))
+    exit( -1 );
 
   destroyAlphaList( in_alpha_list );
 
@@ -964,7 +968,7 @@ UTIL_purgeAlphaFile( char *in_alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha file: %s cannot be read.\n",
 		  in_alpha_filename);
-    return;
+    exit( -1 );
   }
 
   fprintf( param->report_file, 
@@ -981,7 +985,8 @@ UTIL_purgeAlphaFile( char *in_alpha_filename,
 		 "Ouput Alpha Count: %d\n",
             sizeAlphaList(in_alpha_list)  );
 
-  saveAlphaList( in_alpha_list, out_alpha_filename );
+  if ( ! saveAlphaList( in_alpha_list, out_alpha_filename ))
+    exit( -1 );
 
   destroyAlphaList( in_alpha_list );
 
@@ -1155,7 +1160,7 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha1 file: %s cannot be read.\n",
 		  alpha_filename);
-    return;
+    exit( -1 );
   }
 
   prev_alpha_list = readAlphaList( prev_alpha_filename, 0 );
@@ -1163,7 +1168,7 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  prev_alpha_filename);
-    return;
+    exit( -1 );
   }
 
   /* Don't run sanity checks after reading, since here we know we may
@@ -1175,19 +1180,19 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 file: %s cannot be read.\n",
 		  pg_filename);
-    return;
+    exit( -1 );
   }
 
   if ( sizeAlphaList( alpha_list ) != pg->num_nodes ) {
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 and alpha1 files are not compatible.\n");
-    return;
+    exit( -1 );
   }
 
   if ( gNumObservations != pg->num_obs ) {
     fprintf(gStdErrFile, 
 		  "** Error: The pg1 file is not compatible with POMDP file.\n");
-    return;
+    exit( -1 );
   }
 
   /* Note the reversal of the list order in this call.  Though the
@@ -1199,7 +1204,8 @@ UTIL_relinkPolicyGraph( char *alpha_filename,
 
   PG_relink( pg, alpha_map, sizeAlphaList( prev_alpha_list )-1 );
 
-  PG_write( pg, out_pg_filename );
+  if ( ! PG_write( pg, out_pg_filename ))
+    exit( -1 );
 
   /* clean up time */
   destroyAlphaList( alpha_list );
@@ -1250,6 +1256,7 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
 				    char *out_filename ) 
 {
   FILE *file;
+  char *temp_filename;
   AlphaList alpha1_list, alpha2_list;
   AlphaList walk_ptr1, walk_ptr2;
 
@@ -1277,7 +1284,7 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha1 file: %s cannot be read.\n",
 		  alpha1_filename);
-    return;
+    exit( -1 );
   }
 
   alpha2_list = readAlphaList( alpha2_filename, 0 );
@@ -1285,14 +1292,14 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
     fprintf(gStdErrFile, 
 		  "** Error: The alpha2 file: %s cannot be read.\n",
 		  alpha2_filename);
-    return;
+    exit( -1 );
   }
 
-  if ((file = fopen( out_filename , "w")) == NULL) {
+  if ((file = openOutputFile( out_filename, &temp_filename )) == NULL) {
     fprintf(gStdErrFile, 
 		  "** Error: The output file: %s cannot be opened.\n",
 		  out_filename);
-    return;
+    exit( -1 );
   }
 
   /* We will map one vector at a time in alpha1, so these arrays to
@@ -1383,6 +1390,9 @@ UTIL_compareAlphaFiles( char *alpha1_filename,
   destroyAlphaList( alpha1_list );
   destroyAlphaList( alpha2_list );
 
+  if ( ! closeOutputFile( file, out_filename, temp_filename ))
+    exit( -1 );
+
 }  /* UTIL_compareAlphaFiles */
 
 /**********************************************************************/
-- 
2.43.0


From 7489ce86c1acd32a2c03518a38d1dbc7fe56281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 09/40] fix: belief updates answer each line before they wait
 for the next, and survive blank and long lines

---
 src/utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index d3c441b..2d058b5 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1512,11 +1512,15 @@ UTIL_doBeliefUpdates()
     {
 	 UTIL_displayBelief( prev_belief );
 
+	 /* Whoever sends the next line may be waiting for this. */
+	 fflush( stdout );
+
 	 /* UTIL_getline() returns -1 on EOF (and other errors). */
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
 
-	 sscanf( line, "%s", line_init );
+	 line_init[0] = '\0';
+	 sscanf( line, "%254s", line_init );
 
 	 if ( strcmp( line_init, "exit" ) == 0 )
 	   break;
-- 
2.43.0


From 5e171c0f2cbddb0082df0925e79fbaf7d2ddd11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 10/40] fix: the Bellman stopping rule looks both ways for
 costs too

---
 src/common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common.c b/src/common.c
index c73f74d..9b41c10 100644
--- a/src/common.c
+++ b/src/common.c
@@ -178,7 +178,8 @@ bellmanError( AlphaList prev_list,
      vector to the new vectors. This also requires that there was no
      initial value function used (since it could have started with a
      negative value (which we do not check for.) */
-  if (( ( gMinimumImmediateReward >= 0.0 )
+  if (( (( gMinimumImmediateReward >= 0.0 )
+         && ( gValueType != COST_value_type )) /* costs are negated */
         || ( gRequireNonNegativeRewards ))
       && ( param->initial_policy == NULL ))
     return ( max_diff );
-- 
2.43.0


From 5e933ba60d364b85d324543d7caf61e3a9f14f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 11/40] fix: enum and incprune with a single observation keep
 actions and policy graph links

---
 src/cross-sum.c   | 26 ++++++++++++++++++++++++++
 src/cross-sum.h   |  3 +++
 src/enumeration.c |  2 +-
 src/inc-prune.c   |  2 +-
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/cross-sum.c b/src/cross-sum.c
index 6543176..b6a7048 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -179,5 +179,31 @@ crossSum( AlphaList A, AlphaList B, int save_obs_sources )
   return ( V );
 }  /* crossSum */
 /**********************************************************************/
+AlphaList 
+crossSumSingle( AlphaList A ) 
+{
+  /*
+    What the cross sum amounts to when there is only one observation,
+    and so only the one set: a copy of it, with the same bookkeeping
+    for the policy graph as crossSum() would do.
+  */
+  AlphaList V, a, temp;
+  
+  Assert ( A != NULL, "NULL set specified." );
+
+  V = newAlphaList();
+  V->action = A->action;
+
+  for ( a = A->head; a != NULL; a = a->next ) {
+
+    temp = newAlphaNodeObsSource( duplicateAlpha( a->alpha ), V->action );
+    temp->obs_source[a->obs] = a;
+
+    appendNodeToAlphaList( V, temp );
+  }
+
+  return ( V );
+}  /* crossSumSingle */
+/**********************************************************************/
 
 
diff --git a/src/cross-sum.h b/src/cross-sum.h
index 87b6730..8d1e8ba 100644
--- a/src/cross-sum.h
+++ b/src/cross-sum.h
@@ -37,5 +37,8 @@
 extern AlphaList crossSum( AlphaList A, 
                            AlphaList B, 
                            int save_obs_sources );
+
+/* The same for a POMDP with only one observation. */
+extern AlphaList crossSumSingle( AlphaList A );
  
 #endif
diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..e83073c 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -61,7 +61,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( crossSumSingle( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..ba672be 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -404,7 +404,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( crossSumSingle( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
-- 
2.43.0


From 997f5773cdf10581bb86c49d5d3703eb1c2d331c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 12/40] fix: no grid point for an observation no state has

---
 src/finite-grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..e55cb24 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,10 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* No state has this observation. */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From d970e7b4087d3056522fec982b082c5ab6c32a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 13/40] fix: read configuration files without a final newline,
 reject unreadable ones and overlong values

---
 src/config-file.c | 20 +++++++++++++++++---
 src/config-file.h |  2 +-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/config-file.c b/src/config-file.c
index 50002bb..24cd96f 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -91,6 +91,7 @@ CF_fscanf( FILE* file )
   int line_done;
   int line_no = 0;
   char ch;
+  int next_ch;
 
   int char_idx;
 
@@ -108,12 +109,16 @@ CF_fscanf( FILE* file )
 	 while( ! line_done )
 	   {
 
-		if ( ( ch = fgetc( file )) == EOF )
+		/* The last line need not have a newline. */
+		if ( ( next_ch = fgetc( file )) == EOF )
 		  {
-		    line_done = 1;
+		    if ( ferror( file ))
+			 cfg->error_count += 1;
+
 		    file_done = 1;
-		    break;
+		    next_ch = '\n';
 		  }
+		ch = next_ch;
 
 		switch( ch )
 		  {
@@ -230,6 +235,15 @@ CF_fscanf( FILE* file )
 			  seeing an ordinary character */ 
 		  default:
 
+		    /* Too long for the 'attr' or the 'value' string. */
+		    if ((( state == PARSE_IN_ATTRIBUTE )
+			    || ( state == PARSE_IN_VALUE ))
+			   && ( char_idx >= MAX_CFG_FILE_STRING_LEN - 1 ))
+			 {
+			   cfg->error_count += 1;
+			   state = PARSE_IN_ERROR;
+			 }
+
 		    switch ( state )
 			 {
 			 case PARSE_IN_ATTRIBUTE:
diff --git a/src/config-file.h b/src/config-file.h
index 567d246..54fd68d 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,7 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     100
+#define MAX_CFG_FILE_STRING_LEN     1024
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
-- 
2.43.0


From 309eacd68235c659ead34aca05cfdbaa13a6fe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:54 +0000
Subject: [PATCH 14/40] fix: room for file names as long as the options can
 give

---
 src/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/global.h b/src/global.h
index 814300a..db56251 100644
--- a/src/global.h
+++ b/src/global.h
@@ -64,7 +64,7 @@
 
 /* For places where we statically allocate filename character arrays,
    use this for the length. */
-#define MAX_FILENAME_LENGTH          100
+#define MAX_FILENAME_LENGTH          1100
 
 /* What an output file is called, after its proper name, until it is
    complete. */
-- 
2.43.0


From 13d328deed1d9047506a89d2a5f61adc858855aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 15/40] fix: running out of memory while reading a model ends
 the run with a message

---
 src/mdp/decision-tree.c |  9 +++++----
 src/mdp/mdp-common.h    | 21 ++++++++++++++++++---
 src/xalloc.c            | 11 ++++++++---
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..0e0d22e 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -25,6 +25,7 @@
 #include <assert.h>
 #include <stdio.h>
 
+#include "mdp-common.h"
 #include "decision-tree.h"
 
 /**********************************************************************
@@ -94,7 +95,7 @@ static DTNode* dtNewNodeVal(double val)
 {
   DTNode* out;
 
-  out = (DTNode*) malloc(sizeof(DTNode));
+  out = (DTNode*) XMALLOC(sizeof(DTNode));
   out->type = DT_VAL;
   out->data.val = val;
 
@@ -105,7 +106,7 @@ static DTNode* dtNewNodeTable(int numEntries)
 {
   DTNode* out;
 
-  out = (DTNode*) malloc(sizeof(DTNode));
+  out = (DTNode*) XMALLOC(sizeof(DTNode));
   out->type = DT_TABLE;
   dtInitTable(&out->data.subTree, numEntries);
 
@@ -115,7 +116,7 @@ static DTNode* dtNewNodeTable(int numEntries)
 static void dtInitTable(DTTable* t, int numEntries)
 {
   t->numEntries = numEntries;
-  t->entries = (DTNode**) malloc(numEntries * sizeof(DTNode*));
+  t->entries = (DTNode**) XMALLOC(numEntries * sizeof(DTNode*));
   memset(t->entries, 0, numEntries * sizeof(DTNode*));
 }
 
@@ -330,7 +331,7 @@ void dtInit(int numActions, int numStates, int numObservations)
   /* guard to prevent double initialization */
   if (NULL != gTree) return;
 
-  gTableSizes = (int*) malloc(DT_TABLE_DEPTH*sizeof(int));
+  gTableSizes = (int*) XMALLOC(DT_TABLE_DEPTH*sizeof(int));
   gTableSizes[0] = numActions;
   gTableSizes[1] = numStates;
   gTableSizes[2] = numStates;
diff --git a/src/mdp/mdp-common.h b/src/mdp/mdp-common.h
index aaf61f8..0380d53 100644
--- a/src/mdp/mdp-common.h
+++ b/src/mdp/mdp-common.h
@@ -28,9 +28,24 @@
 
 #else
 
-#define XCALLOC(num, size) calloc( (num), (size) )
-#define XMALLOC(size) malloc( size )
-#define XREALLOC(p, size) realloc( (p), (size) )
+#include <stdio.h>
+#include <stdlib.h>
+
+/* There is nothing the parser or the matrices could do without the
+   memory they ask for, so end with a message. */
+static inline void *
+mdpCheckedAlloc( void *p, size_t size ) {
+  if( p == NULL && size > 0 ) {
+    fprintf( stderr, "** Error: Out of memory.\n" );
+    exit( -1 );
+  }
+  return( p );
+}
+
+#define XCALLOC(num, size) \
+   mdpCheckedAlloc( calloc( (num), (size) ), (size_t) (num) * (size) )
+#define XMALLOC(size) mdpCheckedAlloc( malloc( size ), (size) )
+#define XREALLOC(p, size) mdpCheckedAlloc( realloc( (p), (size) ), (size) )
 #define XFREE(stale) free(stale)
 
 #endif
diff --git a/src/xalloc.c b/src/xalloc.c
index e2725d1..191e764 100644
--- a/src/xalloc.c
+++ b/src/xalloc.c
@@ -17,6 +17,11 @@
 #include <stdlib.h>
 #include <string.h>
 #include "common.h"
+#include "global.h"
+
+/* Memory can run out before the error stream has been chosen. */
+#define OUT_OF_MEMORY(MSG) \
+  { if (gStdErrFile == NULL) gStdErrFile = stderr; Abort(MSG); }
 
 /**********************************************************************/
 void *
@@ -24,7 +29,7 @@ XA_malloc (size_t num)
 {
   void *new = (void *) malloc (num);
   if (!new)
-    Abort("Out of memory in malloc()!");
+    OUT_OF_MEMORY("Out of memory in malloc()!");
   return new;
 }
 /**********************************************************************/
@@ -38,7 +43,7 @@ XA_realloc (void *p, size_t num)
 
   new = (void *) realloc (p, num);
   if (!new)
-    Abort("Out of memory in realloc()!");
+    OUT_OF_MEMORY("Out of memory in realloc()!");
 
   return new;
 }
@@ -59,7 +64,7 @@ XA_calloc (size_t num, size_t size)
 #else
   new = calloc (num, size);
   if (!new)
-    Abort("Out of memory in calloc()!");
+    OUT_OF_MEMORY("Out of memory in calloc()!");
 #endif
 
 #endif
-- 
2.43.0


From d53c659fd3388493b2a5b7a3e645375ad78161e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 16/40] fix: room for all belief points in the comparison of
 value functions

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 2d058b5..e7f06e4 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -411,7 +411,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	-1 sentinel list terminator, we need this list to have one more
 	element than the number of belief points.
   */
-  diff_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  diff_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							* sizeof( int ));
 
   /* The index list is assumed to contain non-negative integers, with
@@ -422,7 +422,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 
   /* Also want to keep track of those belief points where the maximal
 	differences occur (for convenience). */
-  maximal_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  maximal_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							   * sizeof( int ));
 
   maximal_idx_list[0] = -1;
-- 
2.43.0


From 7ade3c3f74f5bd1d7af50753a0c335d2ab20b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 17/40] fix: a model without reward entries is worth zero
 everywhere

---
 src/mdp/decision-tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index 0e0d22e..fc731a8 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -354,6 +354,10 @@ void dtAdd(int action, int cur_state, int next_state, int obs, double val)
 double dtGet(int action, int cur_state, int next_state, int obs)
 {
   int vec[DT_TABLE_DEPTH];
+
+  /* a model without any reward entry: everything is worth zero */
+  if (NULL == gTree) return 0.0;
+
   vec[0] = action;
   vec[1] = cur_state;
   vec[2] = next_state;
-- 
2.43.0


From 41e344d59f825722ee0985adf59636f87b3c565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 18/40] fix: the zeros of a reward matrix override earlier
 entries

---
 src/mdp/imm-reward.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..999a46e 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -320,6 +320,15 @@ void irAddToDecisionTree(Imm_Reward_List node)
     
   case ir_matrix:
     m = node->rep.matrix;
+
+    /* The matrix only stores its non-zero entries, but its zeros
+       override what was specified earlier just the same. */
+    if ( gProblemType == POMDP_problem_type ) { /* pomdp */
+      dtAdd(node->action, node->cur_state, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    } else { /* mdp */
+      dtAdd(node->action, WILDCARD_SPEC, WILDCARD_SPEC, WILDCARD_SPEC, 0.0);
+    }
+
     for (i=0; i < m->num_rows; i++) {
       for (j=0; j < m->row_length[i]; j++) {
 	k = m->row_start[i] + j;
-- 
2.43.0


From 1ff8b71d6ddf1d2a0123c803d4d422c7a8991f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 19/40] fix: copies of vector lists keep the vectors' numbers,
 so links into given terminal values exist

---
 src/alpha.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 436050c..5d53551 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -900,17 +900,13 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
-    temp->obs = src_list->obs;
-    temp->prev_source = src_list->prev_source;
-    temp->next = src_list->next;
-    temp->first_source = src_list->first_source;
-    temp->second_source = src_list->second_source;
-    temp->mark = src_list->mark;
-    temp->hook = src_list->hook;
-    temp->length = src_list->length;
-    temp->head = src_list->head;
-    temp->tail = src_list->tail;
+    temp->id = list->id;
+    temp->obs = list->obs;
+    temp->prev_source = list->prev_source;
+    temp->first_source = list->first_source;
+    temp->second_source = list->second_source;
+    temp->mark = list->mark;
+    temp->hook = list->hook;
     
     temp->obs_source = NULL;
     temp->witness = NULL;
-- 
2.43.0


From 7e40e73cbca6920e3e2bb3a83633e7e6368251ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 20/40] fix: restricted region and generalized incremental
 pruning keep one of several equal vectors

---
 src/inc-prune.c | 52 +++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index ba672be..130a670 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -88,14 +88,19 @@ void
 addSimpleSumIp( AlphaList new_list, 
 		AlphaList old_list, 
 		AlphaList add_node,
-		AlphaList skip_node ) 
+		AlphaList skip_node,
+		AlphaList node,
+		double epsilon ) 
 {
   /*
     For each vector in the 'old' list, it adds a vector to the 'new'
     list that had the vector in 'add_node' added to it.  It will ignore
-    the node that is equal to 'skip_node' when doing this.
+    the node that is equal to 'skip_node' when doing this.  It also
+    leaves out sums that are no different from 'node', which happens
+    when the sets being added have equal vectors in them: each of those
+    would rule out the others, and none would be left.
   */
-  AlphaList new_node;
+  double *alpha;
   int i;
 
   Assert( new_list != NULL 
@@ -107,12 +112,15 @@ addSimpleSumIp( AlphaList new_list,
   while( old_list != NULL ) {
     
     if ( old_list != skip_node ) {
-      new_node = appendAlphaList( new_list, 
-                                  duplicateAlpha( old_list->alpha ),
-                                  old_list->action );
+      alpha = duplicateAlpha( old_list->alpha );
       
       for ( i = 0; i < gNumStates; i++ )
-        new_node->alpha[i] += add_node->alpha[i];
+        alpha[i] += add_node->alpha[i];
+
+      if ( sameAlpha( alpha, node->alpha, epsilon ))
+        XFREE( alpha );
+      else
+        appendAlphaList( new_list, alpha, old_list->action );
 
     } /* if not the node to skip */
 
@@ -157,7 +165,8 @@ AlphaList
 getGenIpCompareList( AlphaList node, 
 		     AlphaList A, AlphaList B,
 		     AlphaList cur_list,
-		     GeneralizedIpChoice ip_type ) 
+		     GeneralizedIpChoice ip_type,
+		     double epsilon ) 
 {
   /*
     Based on the parameters, returns a pointer to an AlphaList
@@ -188,9 +197,9 @@ getGenIpCompareList( AlphaList node,
     compare_list = newAlphaList();
     SHOULD_DESTROY(compare_list) = TRUE;
     addSimpleSumIp( compare_list, A, node->second_source,
-                    node->first_source );
+                    node->first_source, node, epsilon );
     addSimpleSumIp( compare_list, B, node->first_source,
-                    node->second_source );
+                    node->second_source, node, epsilon );
     break;
 
   case GeneralizedIp:
@@ -224,14 +233,14 @@ getGenIpCompareList( AlphaList node,
          < ( COUNT(node->second_source) + B->length)) {
       
       addSimpleSumIp( compare_list, A, node->second_source,
-                      node->first_source );
+                      node->first_source, node, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            node->first_source, NULL );
     }
 
     else {
       addSimpleSumIp( compare_list, B, node->first_source,
-                      node->second_source );
+                      node->second_source, node, epsilon );
       addExtractedNodesIp( compare_list, cur_list, 
                            NULL, node->second_source );
 
@@ -243,10 +252,6 @@ getGenIpCompareList( AlphaList node,
     Abort( "Unknown incremental pruning choice ." );
   } /* switch */
 
-  /* zzz Do we need to scan this list for vectors that would be equal
-     to 'node'? We have made sure the vector itself is not added, but
-     the nature of the cross-sum is such that it could construct a
-     buch of similar vectors. */
   return ( compare_list );
 
 }  /* getGenIpCompareList */
@@ -326,6 +331,14 @@ generalizedIpCrossSum( AlphaList A,
     /* Remove a node from the original list. */
     cur_node = dequeueAlphaNode( search_list );
 
+    /* The compare list will not rule out a vector that is equal to one
+       we already have. */
+    if ( findAlphaVector( new_list, cur_node->alpha,
+                          param->alpha_epsilon ) != NULL ) {
+      destroyAlphaNode( cur_node );
+      continue;
+    }
+
     /* This is where we determine which list should be used. It will
        set a field in this list to tell us whether we will need to
        destroy the list when we are done with it.  In some cases this
@@ -333,7 +346,8 @@ generalizedIpCrossSum( AlphaList A,
        do not want to destroy) and in other cases return a list that
        was temporarily constructed for comparison purpose. */
     compare_list = getGenIpCompareList( cur_node, A, B, 
-                                        new_list, param->ip_type );
+                                        new_list, param->ip_type,
+                                        param->alpha_epsilon );
 
     /* See if this node gives us a witness point that there must be a
        vector to be added to new list from original list. */
@@ -354,10 +368,6 @@ generalizedIpCrossSum( AlphaList A,
       best_node = removebestVectorNode( search_list, gTempBelief,
                                         param->alpha_epsilon );
 
-      /* zzz Depending on whether or not we can guarantee that the
-         compare list does not have vectors equal to the node in
-         question, the precision issue could mean that this is ading
-         an epslion-redundant vector. */
       appendNodeToAlphaList( new_list, best_node );
 
       /* Increment the count of number of vectors in the list for the
-- 
2.43.0


From e231b636697a495620b55c85e2c36149464df568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 21/40] fix: adjustable precision starts from the documented
 defaults, not from zeros

---
 src/pomdp-solve-options.c   | 10 +++++-----
 src/pomdp-solve-options.h   |  5 +++++
 src/pomdp-solve-options.xml |  5 +++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c24cf68..32fc219 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -69,7 +69,7 @@ POMDP_SOLVE_OPTS_new( )
   options->verbose = 0;
   options->report_filename[0] = '\0';
   options->ip_type = POMDP_SOLVE_OPTS_OPT_INC_PRUNE_DEFAULT;
-  options->epoch_history_window_length = 0;
+  options->epoch_history_window_length = POMDP_SOLVE_OPTS_OPT_HISTORY_LENGTH_DEFAULT;
   options->prune_epsilon = POMDP_SOLVE_OPTS_OPT_PRUNE_EPSILON_DEFAULT;
   options->save_all = POMDP_SOLVE_OPTS_OPT_SAVE_ALL_DEFAULT;
   strcpy( options->prefix_str, POMDP_SOLVE_OPTS_OPT_O_DEFAULT );
@@ -79,8 +79,8 @@ POMDP_SOLVE_OPTS_new( )
   options->fg_epsilon = POMDP_SOLVE_OPTS_OPT_FG_EPSILON_DEFAULT;
   options->mcgs_traj_iter_count = POMDP_SOLVE_OPTS_OPT_MCGS_TRAJ_ITER_COUNT_DEFAULT;
   options->lp_epsilon = POMDP_SOLVE_OPTS_OPT_LP_EPSILON_DEFAULT;
-  options->ending_epsilon = 0.0;
-  options->starting_epsilon = 0.0;
+  options->ending_epsilon = POMDP_SOLVE_OPTS_OPT_END_EPSILON_DEFAULT;
+  options->starting_epsilon = POMDP_SOLVE_OPTS_OPT_START_EPSILON_DEFAULT;
   options->domination_check = POMDP_SOLVE_OPTS_OPT_DOM_CHECK_DEFAULT;
   options->stop_delta = POMDP_SOLVE_OPTS_OPT_STOP_DELTA_DEFAULT;
   options->q_purge_option = POMDP_SOLVE_OPTS_OPT_Q_PURGE_DEFAULT;
@@ -99,9 +99,9 @@ POMDP_SOLVE_OPTS_new( )
   options->fg_purge_option = POMDP_SOLVE_OPTS_OPT_FG_PURGE_DEFAULT;
   options->proj_purge = POMDP_SOLVE_OPTS_OPT_PROJ_PURGE_DEFAULT;
   options->mcgs_traj_length = POMDP_SOLVE_OPTS_OPT_MCGS_TRAJ_LENGTH_DEFAULT;
-  options->epoch_history_window_delta = 0;
+  options->epoch_history_window_delta = POMDP_SOLVE_OPTS_OPT_HISTORY_DELTA_DEFAULT;
   options->True[0] = '\0';
-  options->epsilon_adjust_factor = 0.0;
+  options->epsilon_adjust_factor = POMDP_SOLVE_OPTS_OPT_EPSILON_ADJUST_DEFAULT;
   options->prune_init_rand_points = 0;
   options->vi_variation = POMDP_SOLVE_OPTS_OPT_VI_VARIATION_DEFAULT;
   options->horizon = 0;
diff --git a/src/pomdp-solve-options.h b/src/pomdp-solve-options.h
index 4aa43b8..8487404 100644
--- a/src/pomdp-solve-options.h
+++ b/src/pomdp-solve-options.h
@@ -672,6 +672,11 @@ struct PomdpSolveProgOptionsStruct {
 #define POMDP_SOLVE_OPTS_OPT_VI_VARIATION_DEFAULT POMDP_SOLVE_OPTS_Vi_Variation_normal
 #define POMDP_SOLVE_OPTS_OPT_STAT_SUMMARY_DEFAULT Boolean_false
 #define POMDP_SOLVE_OPTS_OPT_WITNESS_POINTS_DEFAULT Boolean_false
+#define POMDP_SOLVE_OPTS_OPT_START_EPSILON_DEFAULT 1e-1
+#define POMDP_SOLVE_OPTS_OPT_END_EPSILON_DEFAULT 1e-3
+#define POMDP_SOLVE_OPTS_OPT_EPSILON_ADJUST_DEFAULT 10.0
+#define POMDP_SOLVE_OPTS_OPT_HISTORY_LENGTH_DEFAULT 5
+#define POMDP_SOLVE_OPTS_OPT_HISTORY_DELTA_DEFAULT 3
 
 /*
  * Strings for config file parameters.
diff --git a/src/pomdp-solve-options.xml b/src/pomdp-solve-options.xml
index 6615af3..13e6037 100644
--- a/src/pomdp-solve-options.xml
+++ b/src/pomdp-solve-options.xml
@@ -236,6 +236,7 @@
   <type value="double"/>
   <valid value="0:any"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
+  <default value="1e-1"/>
   <summary value="Sets the starting precision for adjustable epsilon VI."/>
   <description>
     When solving using the 'adjustable_epsilon' method of value
@@ -251,6 +252,7 @@
   <type value="double"/>
   <valid value="0:any"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
+  <default value="1e-3"/>
   <summary value="Sets the ending precision for adjustable epsilon VI."/>
   <description>
     When solving using the 'adjustable_epsilon' method of value
@@ -266,6 +268,7 @@
   <type value="double"/>
   <valid value="0:any"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
+  <default value="10"/>
   <summary value="Sets the precision increment for adjustable epsilon VI."/>
   <description>
     When solving using the 'adjustable_epsilon' method of value
@@ -297,6 +300,7 @@
   <units value="epochs"/>
   <valid value="1:any"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
+  <default value="5"/>
   <summary value="Sets history window to use for adjustable epsilon VI."/>
   <description>
     When using the 'adjustable_epsilon' value iteration variant, we
@@ -317,6 +321,7 @@
   <type value="int"/>
   <valid value="1:any"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
+  <default value="3"/>
   <summary value="Sets solution size delta to use for adjustable epsilon VI."/>
   <description>
     When using the 'adjustable_epsilon' value iteration variant, we
-- 
2.43.0


From 6e1bfad52bd8c954bedc93f1f3d7394e0728ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 22/40] fix: incremental pruning variants keep vectors that tie
 up to the precision of the LP

---
 src/inc-prune.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index 130a670..c913ce0 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -269,8 +269,9 @@ generalizedIpCrossSum( AlphaList A,
     list being pruned was from the cross-sum of two sets.  It is very,
     very similar to the prune() routine.
   */
-  AlphaList new_list, search_list, compare_list, 
+  AlphaList new_list, search_list, compare_list, doubtful_list,
     cur_node, best_node;
+  double diff;
 
   /* We want to keep track of how many vectors in new_list were
      derived from vectors in A and B.  This initializes the counters
@@ -326,6 +327,9 @@ generalizedIpCrossSum( AlphaList A,
      nodes. */
   initializeCountersIp( new_list );
 
+  /* Vectors that only just fail to have a region of their own. */
+  doubtful_list = newAlphaList();
+
   while ( search_list->length > 0 ) {
 
     /* Remove a node from the original list. */
@@ -351,8 +355,9 @@ generalizedIpCrossSum( AlphaList A,
 
     /* See if this node gives us a witness point that there must be a
        vector to be added to new list from original list. */
+    diff = -1.0 * HUGE_VAL;
     if ( findRegionPoint( cur_node->alpha, compare_list, 
-                          gTempBelief, NULL, param )) {
+                          gTempBelief, &diff, param )) {
 
       /* Note that the finding of a witness point does *not*
          necessarily mean that cur_node is the best vector at this
@@ -377,6 +382,15 @@ generalizedIpCrossSum( AlphaList A,
 
     } /* If we did find a witness point. */
 
+    /* If it ties with the vectors it was compared to, then we cannot
+       get rid of it yet, unless it was compared to the vectors we
+       have: up to the precision of the LP, nearly equal vectors of A
+       (or of B) rule out each other, so that none of them would be
+       left. */
+    else if (( compare_list != new_list )
+             && ( diff > -1.0 * param->epsilon ))
+      enqueueAlphaNode( doubtful_list, cur_node );
+
     /* Otherwise, no witness point was found which mean we can simply
        get rid of this node. */
     else      
@@ -393,6 +407,27 @@ generalizedIpCrossSum( AlphaList A,
 
   } /* while orig_list->length > 0 */
 
+  /* Whether the doubtful ones are needed is up to the vectors we have
+     now. */
+  while ( doubtful_list->length > 0 ) {
+
+    cur_node = dequeueAlphaNode( doubtful_list );
+
+    if ( findRegionPoint( cur_node->alpha, new_list, 
+                          gTempBelief, NULL, param )) {
+      enqueueAlphaNode( doubtful_list, cur_node );
+      appendNodeToAlphaList( new_list,
+                             removebestVectorNode( doubtful_list, 
+                                                   gTempBelief,
+                                                   param->alpha_epsilon ));
+    }
+    else
+      destroyAlphaNode( cur_node );
+
+  } /* while doubtful_list->length > 0 */
+
+  destroyAlphaList( doubtful_list );
+
   return( new_list );
 
 }  /* generalizedIpCrossSum */
-- 
2.43.0


From 14762bb28d44c51cd3b477a9495cfac40070b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 23/40] fix: policy graph evaluation names the best start node,
 also for costs

---
 src/pg-eval.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..ab58709 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -164,9 +164,11 @@ double
 PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
 /*
   Evaluates the policy graph for the given belief state byt finding
-  the node of the graph that yields the highers value
+  the node of the graph that yields the highers value (the lowest if
+  the values are costs).
 */
-  double max_sum = -1.0 * HUGE_VAL;
+  double sign = ( gValueType == COST_value_type ) ? -1.0 : 1.0;
+  double max_sum = -1.0 * sign * HUGE_VAL;
   double cur_sum;
   int cur_node, state;
 
@@ -179,7 +181,7 @@ PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
     for ( state = 0; state < pgec->num_states; state++ )
       cur_sum += pgec->soln[state][cur_node] * b[state];
 
-    if ( cur_sum > max_sum ) {
+    if ( sign * cur_sum > sign * max_sum ) {
       max_sum = cur_sum;
       *best_node = cur_node;
     } /* if new best value */
@@ -409,6 +411,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double best_val;
 
   PgEvalContext pgec;
 
@@ -430,9 +433,9 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 best_val = PGEC_val( pgec, gInitialBelief, &best_node );
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    best_val, best_node );
 	 
     } /* if solution found */
   }
-- 
2.43.0


From 71a607f85b08ebc12a04d7bff23f98ee820e8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:46 +0000
Subject: [PATCH 24/40] fix: policy graph evaluation iterates until it is
 accurate, and says when it cannot be

---
 src/laspack-util.h | 4 ++--
 src/pg-eval.c      | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/laspack-util.h b/src/laspack-util.h
index 236b493..f0d0bf4 100644
--- a/src/laspack-util.h
+++ b/src/laspack-util.h
@@ -18,9 +18,9 @@
 #include <laspack/vector.h>
 
 /* Arguments for the LASPACK iterative solver. */
-#define ITER_SOLVE_ACCURACY                1e-5
+#define ITER_SOLVE_ACCURACY                1e-9
 #define JACOBI_PRECON_OMEGA                0.8
-#define MAX_JACOBI_ITERATIONS              1000
+#define MAX_JACOBI_ITERATIONS              200000
 
 extern void showVector( Vector *v );
 extern void showQMatrix( QMatrix *M );
diff --git a/src/pg-eval.c b/src/pg-eval.c
index ab58709..27a38a2 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -361,7 +361,8 @@ PGE_evaluate( PG pg, PgEvalContext pgec ) {
   V_SetAllCmp( &(pgec->x), 0.0 );
   JacobiIter( &(pgec->A), &(pgec->x), &(pgec->b), 
               MAX_JACOBI_ITERATIONS, JacobiPrecond, JACOBI_PRECON_OMEGA );
-  if ( LASResult() != LASOK)  {
+  if (( LASResult() != LASOK )
+      || ( GetLastNoIter() >= MAX_JACOBI_ITERATIONS ))  {
     Warning( "evaluatePG() Trouble trying to solve the system of equations." );
     WriteLASErrDescr(stdout);
     Q_Destr( &(pgec->A) );
-- 
2.43.0


From e086c6e8e3ba6f4440fed1fb1aff7343e4848bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 25/40] fix: belief updates do not take what precedes a read
 error for a line

---
 src/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index e7f06e4..cdc716d 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1418,7 +1418,8 @@ UTIL_getLine( FILE *fh, char *string, int max)
 
    string[i] = '\0';
    
-   return (( c == EOF ) && (i == 0 ) ? EOF : i);
+   /* What came before a read error need not be a whole line. */
+   return (( c == EOF ) && (( i == 0 ) || ferror( fh )) ? EOF : i);
 }
 
 /**********************************************************************/
-- 
2.43.0


From cde9a2b5a4f858e505a6a2d31cda24c3dca755da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 26/40] fix: incremental pruning and the ZLZ speedup release
 their intermediate lists

---
 src/inc-prune.c   | 8 ++++----
 src/zlz_speedup.c | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/inc-prune.c b/src/inc-prune.c
index c913ce0..d99d6f0 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -400,13 +400,13 @@ generalizedIpCrossSum( AlphaList A,
       destroyAlphaList( compare_list );
 
     if ( shouldTerminateEarly( new_list, param ))
-	 {
-	   destroyAlphaList( search_list );
-	   break;
-	 }
+	 break;
 
   } /* while orig_list->length > 0 */
 
+  /* Whatever is left of it, if only its header node. */
+  destroyAlphaList( search_list );
+
   /* Whether the doubtful ones are needed is up to the vectors we have
      now. */
   while ( doubtful_list->length > 0 ) {
diff --git a/src/zlz_speedup.c b/src/zlz_speedup.c
index 21dc31e..11ee583 100644
--- a/src/zlz_speedup.c
+++ b/src/zlz_speedup.c
@@ -291,6 +291,8 @@ ZLZ_improve( AlphaList U_orig, double delta,
     
   } /* while not done */
 
+  destroyAlphaList( U_prev );
+
   dominationCheck( U_next );
 
   /* This special domination check prunes vectors from U_orig that are
-- 
2.43.0


From d5972e5c098f07f8b719f5b6cbbbbdd2616f2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 27/40] fix: release the ids and marks of a policy graph with
 it

---
 src/pg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pg.c b/src/pg.c
index 8aec10a..ccb3470 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -443,6 +443,8 @@ PG_Destructor( PG pg )
     XFREE( pg->next[n] );
   XFREE( pg->next );
   XFREE( pg->action );
+  XFREE( pg->id );
+  XFREE( pg->marked );
   XFREE( pg );
 
 }  /* PG_Destructor */
-- 
2.43.0


From 45f26e7cbfa5df4f1315f752dac2ac98f5316c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 28/40] fix: release the work arrays when a basis cannot be
 inverted

---
 src/lp-solve/solve.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index bf0b769..840e405 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -511,6 +511,13 @@ void invert(lprec *lp)
      */
      if(row_nr > lp->rows) {
        gInversionProblem = TRUE;
+       free(rownum);
+       free(col);
+       free(row);
+       free(pcol);
+       free(frow);
+       free(fcol);
+       free(colnum);
        return;
      } /* if inversion problem */
 
-- 
2.43.0


From f5d93cfc5a534bfdaa387bc75827cd877dd10f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 29/40] fix: report overlong command line arguments without
 overrunning the message

---
 src/command-line.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/command-line.c b/src/command-line.c
index 6fd574f..b7fa27f 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -177,7 +177,7 @@ CL_addFlag( CommandLine cmd_line, char* dashed_flag )
 
   if ( strlen( dashed_flag ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_flag, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -218,7 +218,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( dashed_opt ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_opt, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -226,7 +226,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line value '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line value '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -275,7 +275,7 @@ CL_addArgProper( CommandLine cmd_line, char* value )
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line argument '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line argument '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
-- 
2.43.0


From 86550543abcc3ae04299af895d9298fba01b88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 30/40] fix: let the belief tools handle any number of beliefs
 and ties

---
 src/utils.c | 101 +++++++++++++---------------------------------------
 src/utils.h |   9 -----
 2 files changed, 25 insertions(+), 85 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index cdc716d..dd75378 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -36,41 +36,30 @@ double gUtilEpsilon = 1.0e-9;
 
 /**********************************************************************/
 /* Simple helper routine for dealing with a list of non-negative integers
-   implemented as a fixed size array with a -1 sentinel terminator.
+   implemented as an array with a -1 sentinel terminator.
    This returns the number of elements in the list.
 */
 int
 UTIL_sizeIndexList( int *index_list )
 {
-  int count, i;
+  int count;
 
   count = 0;
   
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return count;
+  while ( index_list[count] >= 0 )
+    count++;
 
-	 count++;
-    }
-  
-  fprintf( stderr, "%s %s",
-		 "Non-terminated index list.",
-		 "This seems to be some internal coding error.\n" );
-  exit( 1 );
+  return count;
 
 }
 
 /**********************************************************************/
 /* Simple helper routine for dealing with a list of non-negative integers
-   implemented as a fixed size array with a -1 sentinel terminator.
+   implemented as an array with a -1 sentinel terminator.
    This appends the 'index' parameter to the end of the list.
 
    Assumes the input list index_list is already terminated with a -1
-   and that the size of this array is MAX_BEST_COUNT.
-
-   If the list is already full, this will print an error message and
-   halt the program, since this indicates and internal coding error.
+   and that the array has room for another element.
 */
 void
 UTIL_appendIndexList( int *index_list, int index )
@@ -80,17 +69,7 @@ UTIL_appendIndexList( int *index_list, int index )
   /* Find end of list to insert. */
   i = 0;
   while ( index_list[i] >= 0 )
-    {
-	 if ( i >= (MAX_BEST_COUNT-2))
-	   {
-		fprintf( stderr, "%s %s",
-			    "Ran off end of index list.",
-			    "This seems to be some internal coding error.\n" );
-		exit( 1 );
-	   }
-
-	 i++;
-    }
+    i++;
 
   index_list[i] = index;
   index_list[i+1] = -1;
@@ -103,13 +82,8 @@ UTIL_printIndexList( FILE *file, int *index_list )
 {
   int i;
 
-  for ( i = 0; i < MAX_BEST_COUNT; i++ )
-    {
-	 if ( index_list[i] < 0 )
-	   return;
-	 
-	 fprintf( file, " %d", index_list[i] );
-    }
+  for ( i = 0; index_list[i] >= 0; i++ )
+    fprintf( file, " %d", index_list[i] );
   
 } /* UTIL_printIndexList */
 
@@ -124,8 +98,7 @@ UTIL_printIndexList( FILE *file, int *index_list )
   elsewhere.  The all_values is a 2D array of size NxM where N is the
   size of the belief list and M the size of the alpha list.  The best
   values is a 1D array of length N.  The best_alphas is a 2D array of
-  size NxP where P is a hard-coded limit on the list size arbitarily
-  set. It contains a list of pointers to the alphas in the list that
+  size Nx(M+1). It contains a list of pointers to the alphas in the list that
   reach the maximal value (one list for each belief point).  This list
   is NULL terminated.
 */
@@ -170,15 +143,6 @@ UTIL_computeAlphaBeliefValues( AlphaList alpha_list,
 				  best_value[b_num], 
 				  epsilon )) 
 	  {
-
-	    if ( best_count >= (MAX_BEST_COUNT - 1) )
-		 {
-		   fprintf( stderr, "%s %s",
-				  "Too many best vectors.",
-				  "Increase the MAX_BEST_COUNT variable in utils.h.\n" );
-		   exit( 1 );
-		 }
-	    
 	    best_alphas[b_num][best_count] = a_ptr;
 	    best_alphas[b_num][best_count+1] = NULL;
 	    best_count++;
@@ -207,11 +171,11 @@ UTIL_computeAlphaBeliefValues( AlphaList alpha_list,
 }  /* UTIL_computeAlphaBeliefValues */
 
 /**********************************************************************/
-/* alpha_best should be a list of lists (as a fixed sized arrays). A
+/* alpha_best should be a list of lists (as arrays). A
    list for each bel;ief point of pointers to AlphaList objects with a
    NULL terminating the list.
    
-   'unique' will be a list (as a fixed sized array) of indices
+   'unique' will be a list (as an array) of indices
    into the alpha list with a -1 terminating the list. This indicate
    which belief points is this vector the sole dominating one from the
    list. 
@@ -307,13 +271,8 @@ UTIL_reportBeliefMapping( FILE *file,
     fprintf( file, "Belief[%d]:\n", b_num );
     
     fprintf( file, "  Best Alpha Indices: " );
-    for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	 
-	 if ( alpha_best[b_num][i] == NULL )
-	   break;
-	 
+    for ( i = 0; alpha_best[b_num][i] != NULL; i++ )
 	 fprintf( file, "%d ", alpha_best[b_num][i]->id ) ;
-    }
     if ( alpha_best[b_num][1] != NULL )
 	 fprintf( file, " (non-unique)" );
 	 
@@ -435,26 +394,16 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	 fprintf( file, "Belief[%d]:\n", b_num );
 
 	 fprintf( file, "  [%d] Best Alpha1 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	   
-	   if ( alpha1_best[b_num][i] == NULL )
-		break;
-	   
+	 for ( i = 0; alpha1_best[b_num][i] != NULL; i++ )
 	   fprintf( file, "%d ", alpha1_best[b_num][i]->id ) ;
-	 }
 	 fprintf( file, "\n" );
 
 	 fprintf( file, "  [%d] Best Alpha1 Value: %.*lf\n", b_num,
 			BELIEF_FILE_DECIMAL_PRECISION, alpha1_best_values[b_num] );
 
 	 fprintf( file, "  [%d] Best Alpha2 Indices: ", b_num );
-	 for ( i = 0; i < MAX_BEST_COUNT; i++ ) {
-	   
-	   if ( alpha2_best[b_num][i] == NULL )
-		break;
-	   
+	 for ( i = 0; alpha2_best[b_num][i] != NULL; i++ )
 	   fprintf( file, "%d ", alpha2_best[b_num][i]->id ) ;
-	 }
 	 fprintf( file, "\n" );
 
 	 fprintf( file, "  [%d] Best Alpha2 Value: %.*lf\n", b_num,
@@ -653,9 +602,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 								* sizeof( *alpha2_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha1_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha1_best[i] = (AlphaList *) XMALLOC( ( sizeAlphaList( alpha1_list )+1 )
 								    * sizeof( AlphaList ) );
-    alpha2_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha2_best[i] = (AlphaList *) XMALLOC( ( sizeAlphaList( alpha2_list )+1 )
 								    * sizeof( AlphaList ) );
   }
 
@@ -665,9 +614,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha1_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha1_list ); i++) {
-    alpha1_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 									  * sizeof( int ) );
-    alpha1_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha1_non_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 										 * sizeof( int ) );
   }
 
@@ -677,9 +626,9 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
 							   * sizeof( *alpha2_non_uniquely_best));
 
   for ( i = 0; i < sizeAlphaList( alpha2_list ); i++) {
-    alpha2_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 									  * sizeof( int ) );
-    alpha2_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha2_non_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 										 * sizeof( int ) );
   }
 
@@ -847,7 +796,7 @@ UTIL_mapBeliefList( char *belief_filename,
 								* sizeof( *alpha_best ));
 
   for ( i = 0; i < sizeBeliefList( belief_list ); i++) {
-    alpha_best[i] = (AlphaList *) XMALLOC( MAX_BEST_COUNT
+    alpha_best[i] = (AlphaList *) XMALLOC( ( sizeAlphaList( alpha_list )+1 )
 								    * sizeof( AlphaList ) );
   }
 
@@ -863,9 +812,9 @@ UTIL_mapBeliefList( char *belief_filename,
 	uniquely and non_uniquely the best for a given belief state.
   */
   for ( i = 0; i < sizeAlphaList( alpha_list ); i++) {
-    alpha_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 									 * sizeof( int ) );
-    alpha_non_uniquely_best[i] = (int *) XMALLOC( MAX_BEST_COUNT
+    alpha_non_uniquely_best[i] = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 										* sizeof( int ) );
   }
 
diff --git a/src/utils.h b/src/utils.h
index 303eab1..86dc8bf 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -13,15 +13,6 @@
 #ifndef UTILS_H
 #define UTILS_H
 
-/* Rather than worry about dynamically alocating arrays for tracking
-   ties in best comparisons, we will make an assumption that there are
-   at most a fixed number of ties.  This variable sets this amount and
-   the code that uses it should check to see if this is exceeding and
-   spit out a warning/error message if it has so that the user can
-   increase this value for their problem.
-*/
-#define MAX_BEST_COUNT   100
-
 extern void UTIL_mapBeliefList( char *belief_filename,
 						  char *alpha_filename,
 						  double epsilon,
-- 
2.43.0


From 70289306cd67c2bd3ce0b4f810b99b6b5f17d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 31/40] fix: do not claim that a grid was saved when it was not

---
 src/finite-grid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index e55cb24..12b1318 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -388,8 +388,8 @@ void initFiniteGrid( PomdpSolveParams param )
   if ( param->opts->finite_grid_save ) {
     
     sprintf( belief_filename, "%s.belief", param->opts->prefix_str );
-    saveBeliefList( gFiniteGrid, belief_filename );
-    fprintf( param->report_file, 
+    if ( saveBeliefList( gFiniteGrid, belief_filename ))
+      fprintf( param->report_file, 
 	     "    Grid saved to %s.\n", belief_filename );
     
   } /* if saving belief list */
-- 
2.43.0


From 2436e7054aadd519d76bf4301da8ccea3e7cc798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 32/40] fix: do not print debugging output for every grid point

It went to the standard output even with -stdout, where it was no part
of the report in the chosen file.
---
 src/common.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/common.c b/src/common.c
index 9b41c10..7088308 100644
--- a/src/common.c
+++ b/src/common.c
@@ -330,17 +330,6 @@ setBestAlphasForBeliefV( double *b, AlphaList **projection, double epsilon )
       && bestAlphaForBeliefQ( gCurAlphaVector[a], b, 
                               projection[a], epsilon );
    
-  // PBVI:
-  printf( "Belief: " );
-  showAlpha( b );
-
-  printf( "Alphas:\n" );
-  for( a = 0; a < gNumActions; a++ )
-    {
-	 printf( "a=%d : ", a );
-	 showAlpha( gCurAlphaVector[a]->alpha );
-    }
-
   return ( result );
 }  /* setBestAlphasForBeliefV */
 /**********************************************************************/
-- 
2.43.0


From 9d06d2cb119c9f277581901257dfd1cbdaf5fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 33/40] fix: "start include: *" wrote in front of the initial
 belief

The wildcard is passed on as -1, which was used as an index: the heap was
damaged, and "start exclude: *" ended in a crash instead of a message.
parser.c (generated by byacc) has the same change as parser.y.
---
 src/mdp/parser.c | 163 ++++++++++++++++++++++++-----------------------
 src/mdp/parser.y |   7 ++
 2 files changed, 92 insertions(+), 78 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7bad489..8e51f4f 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -1267,6 +1267,13 @@ enterStartState( int i ) {
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* The wildcard stands for every state. */
+  if( i < 0 ) {
+    for( i = 0; i < gNumStates; i++ )
+      enterStartState( i );
+    return;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
@@ -1482,7 +1489,7 @@ yywrap()
    return 1;
 }
 /************************************************************************/
-#line 1486 "parser.c"
+#line 1493 "parser.c"
 
 /* For use in generated program */
 #define yydepth (int)(yystack.s_mark - yystack.s_base)
@@ -2176,7 +2183,7 @@ case 1:
 
 		    allocateIntermediateMDP();  
 		  }
-#line 2180 "parser.c"
+#line 2187 "parser.c"
 break;
 case 2:
 #line 148 "parser.y"
@@ -2194,7 +2201,7 @@ case 2:
 
 		    endStartStates(); 
 		  }
-#line 2198 "parser.c"
+#line 2205 "parser.c"
 break;
 case 3:
 #line 167 "parser.y"
@@ -2213,14 +2220,14 @@ case 3:
                      checkProbs();
 		     YACCtrace("pomdp_file -> preamble params\n");
                   }
-#line 2217 "parser.c"
+#line 2224 "parser.c"
 break;
 case 4:
 #line 184 "parser.y"
 	{
 		   YACCtrace("preamble -> preamble param_type\n");
 		}
-#line 2224 "parser.c"
+#line 2231 "parser.c"
 break;
 case 11:
 #line 196 "parser.y"
@@ -2236,7 +2243,7 @@ case 11:
                    discountDefined = 1;
 		   YACCtrace("discount_param -> DISCOUNTTOK COLONTOK number\n");
 	        }
-#line 2240 "parser.c"
+#line 2247 "parser.c"
 break;
 case 12:
 #line 210 "parser.y"
@@ -2244,21 +2251,21 @@ case 12:
                    valuesDefined = 1;
 		   YACCtrace("value_param -> VALUESTOK COLONTOK value_tail\n");
 	        }
-#line 2248 "parser.c"
+#line 2255 "parser.c"
 break;
 case 13:
 #line 223 "parser.y"
 	{
                    gValueType = REWARD_value_type;
 		}
-#line 2255 "parser.c"
+#line 2262 "parser.c"
 break;
 case 14:
 #line 227 "parser.y"
 	{
                    gValueType = COST_value_type;
 		}
-#line 2262 "parser.c"
+#line 2269 "parser.c"
 break;
 case 15:
 #line 232 "parser.y"
@@ -2273,7 +2280,7 @@ case 15:
 		  curMnemonic = nt_state; 
 
 		}
-#line 2277 "parser.c"
+#line 2284 "parser.c"
 break;
 case 16:
 #line 244 "parser.y"
@@ -2282,7 +2289,7 @@ case 16:
                    curMnemonic = nt_unknown;
 		   YACCtrace("state_param -> STATETOK COLONTOK state_tail\n");
 		}
-#line 2286 "parser.c"
+#line 2293 "parser.c"
 break;
 case 17:
 #line 251 "parser.y"
@@ -2304,7 +2311,7 @@ case 17:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2308 "parser.c"
+#line 2315 "parser.c"
 break;
 case 19:
 #line 273 "parser.y"
@@ -2313,7 +2320,7 @@ case 19:
 
 		  curMnemonic = nt_action;  
 		}
-#line 2317 "parser.c"
+#line 2324 "parser.c"
 break;
 case 20:
 #line 279 "parser.y"
@@ -2322,7 +2329,7 @@ case 20:
                    curMnemonic = nt_unknown;
 		   YACCtrace("action_param -> ACTIONTOK COLONTOK action_tail\n");
 		}
-#line 2326 "parser.c"
+#line 2333 "parser.c"
 break;
 case 21:
 #line 286 "parser.y"
@@ -2344,7 +2351,7 @@ case 21:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2348 "parser.c"
+#line 2355 "parser.c"
 break;
 case 23:
 #line 308 "parser.y"
@@ -2353,7 +2360,7 @@ case 23:
 
 		  curMnemonic = nt_observation; 
 		}
-#line 2357 "parser.c"
+#line 2364 "parser.c"
 break;
 case 24:
 #line 314 "parser.y"
@@ -2362,7 +2369,7 @@ case 24:
                    curMnemonic = nt_unknown;
 		   YACCtrace("obs_param -> OBSTOK COLONTOK obs_param_tail\n");
 		}
-#line 2366 "parser.c"
+#line 2373 "parser.c"
 break;
 case 25:
 #line 321 "parser.y"
@@ -2384,7 +2391,7 @@ case 25:
 
                    XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2388 "parser.c"
+#line 2395 "parser.c"
 break;
 case 27:
 #line 343 "parser.y"
@@ -2402,7 +2409,7 @@ case 27:
 		  else
 		    setMatrixContext(mc_mdp_start, 0, 0, 0, 0); 
 		}
-#line 2406 "parser.c"
+#line 2413 "parser.c"
 break;
 case 29:
 #line 376 "parser.y"
@@ -2424,42 +2431,42 @@ case 29:
 		   XFREE( yystack.l_mark[0].constBlk->theValue.theString );
 		   XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2428 "parser.c"
+#line 2435 "parser.c"
 break;
 case 30:
 #line 396 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_include, 0, 0, 0, 0); 
 		}
-#line 2435 "parser.c"
+#line 2442 "parser.c"
 break;
 case 32:
 #line 402 "parser.y"
 	{ 
 		  setMatrixContext(mc_start_exclude, 0, 0, 0, 0); 
 		}
-#line 2442 "parser.c"
+#line 2449 "parser.c"
 break;
 case 34:
 #line 409 "parser.y"
 	{ 
 		  setStartStateUniform(); 
 		}
-#line 2449 "parser.c"
+#line 2456 "parser.c"
 break;
 case 35:
 #line 414 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2456 "parser.c"
+#line 2463 "parser.c"
 break;
 case 36:
 #line 418 "parser.y"
 	{
 		  enterStartState( yystack.l_mark[0].i_num );
                 }
-#line 2463 "parser.c"
+#line 2470 "parser.c"
 break;
 case 40:
 #line 427 "parser.y"
@@ -2488,19 +2495,19 @@ case 40:
 
 		      observationSpecDefined = 1;
 		  }
-#line 2492 "parser.c"
+#line 2499 "parser.c"
 break;
 case 42:
 #line 455 "parser.y"
 	{
 		   YACCtrace("trans_prob_spec -> TTOK COLONTOK trans_spec_tail\n");
 		}
-#line 2499 "parser.c"
+#line 2506 "parser.c"
 break;
 case 43:
 #line 460 "parser.y"
 	{ setMatrixContext(mc_trans_single, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2504 "parser.c"
+#line 2511 "parser.c"
 break;
 case 44:
 #line 461 "parser.y"
@@ -2508,43 +2515,43 @@ case 44:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("trans_spec_tail -> action COLONTOK state COLONTOK state prob \n");
 		}
-#line 2512 "parser.c"
+#line 2519 "parser.c"
 break;
 case 45:
 #line 466 "parser.y"
 	{ setMatrixContext(mc_trans_row, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2517 "parser.c"
+#line 2524 "parser.c"
 break;
 case 46:
 #line 467 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action COLONTOK state ui_matrix \n");
 		}
-#line 2524 "parser.c"
+#line 2531 "parser.c"
 break;
 case 47:
 #line 470 "parser.y"
 	{ setMatrixContext(mc_trans_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2529 "parser.c"
+#line 2536 "parser.c"
 break;
 case 48:
 #line 471 "parser.y"
 	{
 		   YACCtrace("trans_spec_tail -> action ui_matrix\n");
 		}
-#line 2536 "parser.c"
+#line 2543 "parser.c"
 break;
 case 49:
 #line 476 "parser.y"
 	{
 		   YACCtrace("obs_prob_spec -> OTOK COLONTOK  obs_spec_tail\n");
 		}
-#line 2543 "parser.c"
+#line 2550 "parser.c"
 break;
 case 50:
 #line 481 "parser.y"
 	{ setMatrixContext(mc_obs_single, yystack.l_mark[-4].i_num, 0, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2548 "parser.c"
+#line 2555 "parser.c"
 break;
 case 51:
 #line 482 "parser.y"
@@ -2552,43 +2559,43 @@ case 51:
                    enterMatrix( yystack.l_mark[0].f_num );
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK obs prob \n");
 		}
-#line 2556 "parser.c"
+#line 2563 "parser.c"
 break;
 case 52:
 #line 487 "parser.y"
 	{ setMatrixContext(mc_obs_row, yystack.l_mark[-2].i_num, 0, yystack.l_mark[0].i_num, 0); }
-#line 2561 "parser.c"
+#line 2568 "parser.c"
 break;
 case 53:
 #line 488 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action COLONTOK state COLONTOK u_matrix\n");
 		}
-#line 2568 "parser.c"
+#line 2575 "parser.c"
 break;
 case 54:
 #line 491 "parser.y"
 	{ setMatrixContext(mc_obs_all, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2573 "parser.c"
+#line 2580 "parser.c"
 break;
 case 55:
 #line 492 "parser.y"
 	{
 		   YACCtrace("obs_spec_tail -> action u_matrix\n");
 		}
-#line 2580 "parser.c"
+#line 2587 "parser.c"
 break;
 case 56:
 #line 497 "parser.y"
 	{
 		   YACCtrace("reward_spec -> RTOK COLONTOK  reward_spec_tail\n");
 		}
-#line 2587 "parser.c"
+#line 2594 "parser.c"
 break;
 case 57:
 #line 504 "parser.y"
 	{ setMatrixContext(mc_reward_single, yystack.l_mark[-6].i_num, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num); }
-#line 2592 "parser.c"
+#line 2599 "parser.c"
 break;
 case 58:
 #line 505 "parser.y"
@@ -2599,12 +2606,12 @@ case 58:
 		   checkMatrix();  
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state COLONTOK obs number\n");
 		}
-#line 2603 "parser.c"
+#line 2610 "parser.c"
 break;
 case 59:
 #line 513 "parser.y"
 	{ setMatrixContext(mc_reward_row, yystack.l_mark[-4].i_num, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0); }
-#line 2608 "parser.c"
+#line 2615 "parser.c"
 break;
 case 60:
 #line 514 "parser.y"
@@ -2612,12 +2619,12 @@ case 60:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state COLONTOK state num_matrix\n");
 		 }
-#line 2616 "parser.c"
+#line 2623 "parser.c"
 break;
 case 61:
 #line 519 "parser.y"
 	{ setMatrixContext(mc_reward_all, yystack.l_mark[-2].i_num, yystack.l_mark[0].i_num, 0, 0); }
-#line 2621 "parser.c"
+#line 2628 "parser.c"
 break;
 case 62:
 #line 520 "parser.y"
@@ -2625,12 +2632,12 @@ case 62:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action COLONTOK state num_matrix\n");
 		}
-#line 2629 "parser.c"
+#line 2636 "parser.c"
 break;
 case 63:
 #line 526 "parser.y"
 	{ setMatrixContext(mc_reward_mdp_only, yystack.l_mark[0].i_num, 0, 0, 0); }
-#line 2634 "parser.c"
+#line 2641 "parser.c"
 break;
 case 64:
 #line 527 "parser.y"
@@ -2638,77 +2645,77 @@ case 64:
                    checkMatrix();
 		   YACCtrace("reward_spec_tail -> action num_matrix\n");
                 }
-#line 2642 "parser.c"
+#line 2649 "parser.c"
 break;
 case 65:
 #line 533 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2649 "parser.c"
+#line 2656 "parser.c"
 break;
 case 66:
 #line 537 "parser.y"
 	{
                    enterIdentityMatrix();
                 }
-#line 2656 "parser.c"
+#line 2663 "parser.c"
 break;
 case 67:
 #line 541 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2663 "parser.c"
+#line 2670 "parser.c"
 break;
 case 68:
 #line 547 "parser.y"
 	{
                    enterUniformMatrix();
                 }
-#line 2670 "parser.c"
+#line 2677 "parser.c"
 break;
 case 69:
 #line 551 "parser.y"
 	{
 		  enterResetMatrix();
 		}
-#line 2677 "parser.c"
+#line 2684 "parser.c"
 break;
 case 70:
 #line 555 "parser.y"
 	{
                    checkMatrix();
                 }
-#line 2684 "parser.c"
+#line 2691 "parser.c"
 break;
 case 71:
 #line 560 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2691 "parser.c"
+#line 2698 "parser.c"
 break;
 case 72:
 #line 564 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2698 "parser.c"
+#line 2705 "parser.c"
 break;
 case 73:
 #line 569 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2705 "parser.c"
+#line 2712 "parser.c"
 break;
 case 74:
 #line 573 "parser.y"
 	{
                    enterMatrix( yystack.l_mark[0].f_num );
                 }
-#line 2712 "parser.c"
+#line 2719 "parser.c"
 break;
 case 75:
 #line 578 "parser.y"
@@ -2723,7 +2730,7 @@ case 75:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2727 "parser.c"
+#line 2734 "parser.c"
 break;
 case 76:
 #line 590 "parser.y"
@@ -2741,14 +2748,14 @@ case 76:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2745 "parser.c"
+#line 2752 "parser.c"
 break;
 case 77:
 #line 605 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2752 "parser.c"
+#line 2759 "parser.c"
 break;
 case 78:
 #line 610 "parser.y"
@@ -2764,7 +2771,7 @@ case 78:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2768 "parser.c"
+#line 2775 "parser.c"
 break;
 case 79:
 #line 623 "parser.y"
@@ -2782,14 +2789,14 @@ case 79:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2786 "parser.c"
+#line 2793 "parser.c"
 break;
 case 80:
 #line 638 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2793 "parser.c"
+#line 2800 "parser.c"
 break;
 case 81:
 #line 643 "parser.y"
@@ -2804,7 +2811,7 @@ case 81:
                       yyval.i_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2808 "parser.c"
+#line 2815 "parser.c"
 break;
 case 82:
 #line 655 "parser.y"
@@ -2822,28 +2829,28 @@ case 82:
                    XFREE( yystack.l_mark[0].constBlk->theValue.theString );
                    XFREE( yystack.l_mark[0].constBlk );
                }
-#line 2826 "parser.c"
+#line 2833 "parser.c"
 break;
 case 83:
 #line 670 "parser.y"
 	{
                    yyval.i_num = WILDCARD_SPEC;
                 }
-#line 2833 "parser.c"
+#line 2840 "parser.c"
 break;
 case 84:
 #line 675 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2840 "parser.c"
+#line 2847 "parser.c"
 break;
 case 85:
 #line 679 "parser.y"
 	{
                    enterString( yystack.l_mark[0].constBlk );
                 }
-#line 2847 "parser.c"
+#line 2854 "parser.c"
 break;
 case 86:
 #line 684 "parser.y"
@@ -2855,7 +2862,7 @@ case 86:
 				BAD_PROB_VAL, "");
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2859 "parser.c"
+#line 2866 "parser.c"
 break;
 case 87:
 #line 693 "parser.y"
@@ -2870,7 +2877,7 @@ case 87:
 					 BAD_PROB_VAL, "" );
 		  XFREE( yystack.l_mark[0].constBlk );
 		}
-#line 2874 "parser.c"
+#line 2881 "parser.c"
 break;
 case 88:
 #line 706 "parser.y"
@@ -2881,7 +2888,7 @@ case 88:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theInt;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2885 "parser.c"
+#line 2892 "parser.c"
 break;
 case 89:
 #line 714 "parser.y"
@@ -2892,30 +2899,30 @@ case 89:
                       yyval.f_num = yystack.l_mark[0].constBlk->theValue.theFloat;
                    XFREE( yystack.l_mark[0].constBlk );
                 }
-#line 2896 "parser.c"
+#line 2903 "parser.c"
 break;
 case 90:
 #line 723 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2903 "parser.c"
+#line 2910 "parser.c"
 break;
 case 91:
 #line 727 "parser.y"
 	{
                    yyval.i_num = 1;
                 }
-#line 2910 "parser.c"
+#line 2917 "parser.c"
 break;
 case 92:
 #line 731 "parser.y"
 	{
                    yyval.i_num = 0;
                 }
-#line 2917 "parser.c"
+#line 2924 "parser.c"
 break;
-#line 2919 "parser.c"
+#line 2926 "parser.c"
     default:
         break;
     }
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index a8043a3..9044ee1 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -1362,6 +1362,13 @@ enterStartState( int i ) {
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* The wildcard stands for every state. */
+  if( i < 0 ) {
+    for( i = 0; i < gNumStates; i++ )
+      enterStartState( i );
+    return;
+  }
+
   switch( curMatrixContext ) {
   case mc_start_include:
     gInitialBelief[i] = 1.0;
-- 
2.43.0


From e42e710aafe4d68996ea7eae9c7955569cd85d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 34/40] fix: options that do not exist were accepted and
 ignored

---
 src/program-options.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 113ad46..827ea80 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -376,10 +376,11 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < cmd_line->num_flags; i++ )
     { 
-	 if ( ! opts->flag_seen )
+	 if ( ! opts->flag_seen[i] )
 	   {
-		sprintf( err_msg, "Unreckognized command line flag '%s'.",
-			    cmd_line->flags[i] );
+		snprintf( err_msg, sizeof( err_msg ),
+			  "Unrecognized command line flag '%s'.",
+			  cmd_line->flags[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
@@ -388,10 +389,10 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < assoc->cur_size; i++ )
     { 
-	 if ( ! opts->option_seen )
+	 if ( ! opts->option_seen[i] )
 	   {
-		sprintf( err_msg, "Unreckognized command line option '%s'.",
-			    cmd_line->flags[i] );
+		snprintf( err_msg, sizeof( err_msg ),
+			  "Unrecognized option '%s'.", assoc->keys[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
-- 
2.43.0


From 89e89848ba3e0acc89fe73f8773bd5d3598825bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 35/40] fix: numbers with trailing garbage or out of range were
 accepted as option values

---
 src/program-options.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 827ea80..90cf528 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -49,6 +49,9 @@
 */
 #include <stdio.h>
 #include <stdlib.h>
+#include <errno.h>
+#include <limits.h>
+#include <math.h>
 #include <string.h>
 
 #include "global.h"
@@ -572,8 +575,9 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
     out of range, this returns 0.  On success, this routine also marks
     the flag as seen (if the 'seen' structure has been allocated.)
    */
-  int i;
   int str_result;
+  long value;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -586,7 +590,16 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = atoi( found_str );
+  errno = 0;
+  value = strtol( found_str, &end_ptr, 10 );
+
+  /* The whole string has to be a number that can be represented. */
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' )
+	 || ( errno == ERANGE )
+	 || ( value < INT_MIN ) || ( value > INT_MAX ))
+    return PO_OPT_PRESENT_ERROR;
+
+  *ret_value = (int) value;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
@@ -615,8 +628,8 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
     out of range, this returns 0.  On success, this routine also marks
     the flag as seen (if the 'seen' structure has been allocated.)
    */
-  int i;
   int str_result;
+  char *end_ptr;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -629,7 +642,12 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = strtod( found_str, NULL );
+  *ret_value = strtod( found_str, &end_ptr );
+
+  /* The whole string has to be a number. */
+  if (( end_ptr == found_str ) || ( *end_ptr != '\0' )
+	 || isnan( *ret_value ))
+    return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
-- 
2.43.0


From c537b3f9f8e35005614f4e8d83d02a3ce508b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 36/40] fix: vectors and beliefs with numbers that are not
 finite were accepted

---
 src/alpha.c  | 5 ++++-
 src/belief.c | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 5d53551..ae6e717 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1117,8 +1117,11 @@ readAlphaList( char *filename, int max_alphas )
        break;
      alpha = newAlpha();
      
-     for ( i = 0; ( count == 1 ) && ( i < gNumStates ); i++ )
+     for ( i = 0; ( count == 1 ) && ( i < gNumStates ); i++ ) {
        count = fscanf( file, "%lf", &( alpha[i] ));
+       if (( count == 1 ) && ( ! isfinite( alpha[i] )))
+         count = 0;
+     }
 
      if ( count != 1 ) {
        fprintf(gStdErrFile, 
diff --git a/src/belief.c b/src/belief.c
index 74063aa..7763f88 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -209,7 +209,8 @@ readBeliefList( char *filename, int max )
      b = newBelief();
      
      for ( i = 0; i < gNumStates; i++ )
-       if (( count = fscanf( file, "%lf", &( b[i] ))) != 1 ) {
+       if ((( count = fscanf( file, "%lf", &( b[i] ))) != 1 )
+           || ( ! isfinite( b[i] ))) {
 
 	    XFREE( b );
 
-- 
2.43.0


From de4579710abf36f98a04cde477a6dcd3c4112159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 37/40] fix: values too large to be computed with crashed the
 run

---
 src/projection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/projection.c b/src/projection.c
index 2af3d70..2e8bcbe 100644
--- a/src/projection.c
+++ b/src/projection.c
@@ -27,6 +27,10 @@
 #include "alpha.h"
 #include "projection.h"
 
+/* Values have to stay below this (in size), so that what is computed
+   from them (their squares, say) can still be represented. */
+#define LARGEST_VALUE            1.0e150
+
 void dumpProjections( AlphaList **projection );
 
 /**********************************************************************/
@@ -160,6 +164,10 @@ projectVector( AlphaList node, int a, int z )
       += getAdjustedReward( a, cur_state ) 
       / ((double) gNumObservations);
       
+    /* This also catches what is not a number at all. */
+    if ( ! ( fabs( alpha[cur_state] ) < LARGEST_VALUE ))
+      Abort( "The values are too large." );
+
   }   /* for i */
 
   /* Create a node for this vector. Note that the action we want to
-- 
2.43.0


From dcb0b88800eaed7ee7861b502cd44885ab9b09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 38/40] fix: whole numbers too large for an int were taken for
 other numbers

---
 src/mdp/scanner.c | 47 +++++++++++++++++++++++++++--------------------
 src/mdp/scanner.l |  7 +++++++
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/mdp/scanner.c b/src/mdp/scanner.c
index d950c90..afad3a3 100644
--- a/src/mdp/scanner.c
+++ b/src/mdp/scanner.c
@@ -472,6 +472,7 @@ char *yytext;
 
 #include <stdio.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -595,9 +596,9 @@ CheckReserved() {
 
 }  /* CheckReserved */
 /**********************************************************************/
-#line 599 "scanner.c"
+#line 600 "scanner.c"
 /************************* Character Classes  *******************************/
-#line 601 "scanner.c"
+#line 602 "scanner.c"
 
 #define INITIAL 0
 
@@ -814,9 +815,9 @@ YY_DECL
 		}
 
 	{
-#line 156 "scanner.l"
+#line 157 "scanner.l"
 
-#line 820 "scanner.c"
+#line 821 "scanner.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -875,15 +876,21 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 157 "scanner.l"
+#line 158 "scanner.l"
 {
+                                          /* Too large for an int: either
+                                             a number or an error. */
+                                          if( atof( yytext ) > INT_MAX ) {
+                                             FloatToYylval();
+                                             return (FLOATTOK);
+                                          }
                                           IntToYylval();
                                           return (INTTOK);  /* Integer Literal */
 					}   
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 162 "scanner.l"
+#line 169 "scanner.l"
 {
                                           FloatToYylval();
                                           return (FLOATTOK);  /* Floating Point Literal */
@@ -891,7 +898,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 167 "scanner.l"
+#line 174 "scanner.l"
 {
                                   int tok_val;
                                   tok_val = CheckReserved();
@@ -905,63 +912,63 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 178 "scanner.l"
+#line 185 "scanner.l"
 ;   /* Comment: No action */
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 181 "scanner.l"
+#line 188 "scanner.l"
 {         
                                    return (ASTERICKTOK);
                                 }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 184 "scanner.l"
+#line 191 "scanner.l"
 {         
                                    return (MINUSTOK);
                                 }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 187 "scanner.l"
+#line 194 "scanner.l"
 {         
                                     return (PLUSTOK);
                                 }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 190 "scanner.l"
+#line 197 "scanner.l"
 {         
                                     return (COLONTOK);
                                 }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 194 "scanner.l"
+#line 201 "scanner.l"
 ; /* Spacedelimiter: No action */ 
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 196 "scanner.l"
+#line 203 "scanner.l"
 ; /* Tab delimiter: No action */
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 198 "scanner.l"
+#line 205 "scanner.l"
 ; /* Carriage return: No action */
 	YY_BREAK
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 200 "scanner.l"
+#line 207 "scanner.l"
 {  
                                     currentLineNumber++; /* Newline delimiter */
                                 }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 205 "scanner.l"
+#line 212 "scanner.l"
 { 
                                   
                                   ERR_enter("Scanner<yylex>",currentLineNumber,
@@ -970,10 +977,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 218 "scanner.l"
+#line 225 "scanner.l"
 ECHO;
 	YY_BREAK
-#line 977 "scanner.c"
+#line 984 "scanner.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1978,4 +1985,4 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 218 "scanner.l"
+#line 225 "scanner.l"
diff --git a/src/mdp/scanner.l b/src/mdp/scanner.l
index b4e83fe..8d868df 100644
--- a/src/mdp/scanner.l
+++ b/src/mdp/scanner.l
@@ -17,6 +17,7 @@
 
 #include <stdio.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -155,6 +156,12 @@ UnsignedReal ({Digit}+({RealOpt1}|{RealOpt2}))
 
 %%
 {IntLiteral} 			{
+                                          /* Too large for an int: either
+                                             a number or an error. */
+                                          if( atof( yytext ) > INT_MAX ) {
+                                             FloatToYylval();
+                                             return (FLOATTOK);
+                                          }
                                           IntToYylval();
                                           return (INTTOK);  /* Integer Literal */
 					}   
-- 
2.43.0


From 6fe64f9ef4d12803722c87160bac4a9b8159d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:52 +0000
Subject: [PATCH 39/40] fix: the weak stopping criterion looks at both
 directions

It measured how far each current vector is from the previous ones only, so
that a run stopped (reporting no difference) when the current vectors were a
part of the previous ones, however much the value function had fallen.
---
 src/pomdp-solve.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 8eecac5..baa745c 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -467,6 +467,7 @@ meetStopCriteria( AlphaList prev_alpha_list,
      is met.  This is done by comparing the current and previous value
      function (set of alpha vectors).  
   */
+  double back_error;
 
   Assert( prev_alpha_list != NULL && cur_alpha_list != NULL,
           "Bad (NULL) parameter(s)." );
@@ -511,6 +512,15 @@ meetStopCriteria( AlphaList prev_alpha_list,
 	 case POMDP_SOLVE_OPTS_Stop_Criteria_weak:
 	   *error = weakBound( cur_alpha_list, prev_alpha_list,
 					   param->stop_delta );
+
+	   /* That every current vector is near a previous one does not
+		 bound the difference if a previous vector disappeared, so
+		 the other direction has to be looked at, too. */
+	   if ( *error <= param->stop_delta ) {
+		back_error = weakBound( prev_alpha_list, cur_alpha_list,
+						    param->stop_delta );
+		*error = Max( *error, back_error );
+	   }
 	   break;
 	   
 	 case POMDP_SOLVE_OPTS_Stop_Criteria_bellman:
-- 
2.43.0


From 300847dea7aed5fd650cfe5d726e264f36e122f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 40/40] fix: a random seed with more than three numbers, or
 text after them, was accepted

---
 src/random.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/random.c b/src/random.c
index 50d5c4f..39dcff8 100644
--- a/src/random.c
+++ b/src/random.c
@@ -111,12 +111,14 @@ setRandomSeedFromString ( char *str )
 {
   int s[SEED_SIZE];
   int i;
+  int end = 0;
 
-  /* zzz Need to add something to check for too many and too few
-     values. Also need to make this a function of SEED_SIZE and not
-     hard coded as '3'. */  
+  /* zzz Need to make this a function of SEED_SIZE and not hard coded
+     as '3'. */  
   
-  if ( sscanf( str, "%d:%d:%d", &s[0], &s[1], &s[2] ) != SEED_SIZE )
+  if (( sscanf( str, "%d:%d:%d%n", &s[0], &s[1], &s[2], &end ) 
+        != SEED_SIZE )
+      || ( str[end] != '\0' ))
     Abort( "Random seed must be given as three integers: N:N:N" );
   
   for( i = 0; i < SEED_SIZE; i++ )
-- 
2.43.0

