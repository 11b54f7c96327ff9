/* functions reachable through tables the harness does not use: cut off so that
 * CBMC's over-approximation of indirect calls stays small */
#ifndef KEEP_IMPORT
bool msg_importfunc(struct MemMessage *mm,struct Area *area) { return(TRUE); }
bool jam_importfunc(struct MemMessage *mm,struct Area *area) { return(TRUE); }
#endif
bool cmnl_nlCheckNode(struct Node4D *node) { return(TRUE); }
bool v7p_nlCheckNode(struct Node4D *node) { return(TRUE); }
long cmnl_nlGetHub(struct Node4D *node) { return 0; }
long v7p_nlGetHub(struct Node4D *node) { return 0; }
long cmnl_nlGetRegion(struct Node4D *node) { return 0; }
long v7p_nlGetRegion(struct Node4D *node) { return 0; }
