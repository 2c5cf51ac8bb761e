/* Executes commands from the standard input with the C interface and prints what it returns.
 * Strings are hexadecimal, "-" is null and "=" is the empty string. Objects live in numbered slots
 * and stay alive until they are freed by a command, so that they can be used after others are gone. */
#include "graphannis-capi.h"
#include <stdio.h>
#include <string.h>

#define N 16
static struct AnnisCorpusStorage *S[N];
static struct AnnisVec_CString *V[N];
static struct AnnisGraphUpdate *U[N];
static AnnisAnnotationGraph *G[N];
static AnnisMatrix_CString *M[N];
static AnnisFrequencyTable_CString *F[N];
static struct AnnisVec_AnnotationComponent *C[N];
static struct AnnisVec_QueryAttributeDescription *Q[N];

static char *tok[32];
static char *str[32]; /* decoded arguments of the current command */
static int ntok;

/* exact allocation, so that every access behind the end is seen */
static char *s(int i) {
  if (i >= ntok) { fprintf(stderr, "driver: missing argument %d of %s\n", i, tok[0]); exit(9); }
  const char *t = tok[i];
  if (!strcmp(t, "-")) return NULL;
  if (!strcmp(t, "=")) t = "";
  if (str[i]) return str[i];
  size_t n = strlen(t) / 2;
  char *r = malloc(n + 1);
  for (size_t k = 0; k < n; k++) {
    unsigned x;
    sscanf(t + 2 * k, "%2x", &x);
    r[k] = (char)x;
  }
  r[n] = 0;
  return str[i] = r;
}
static unsigned long n(int i) {
  if (i >= ntok) { fprintf(stderr, "driver: missing number %d of %s\n", i, tok[0]); exit(9); }
  return strtoul(tok[i], NULL, 10);
}
static void ps(const char *x) {
  if (!x) { printf(" -"); return; }
  if (!*x) { printf(" ="); return; }
  putchar(' ');
  for (; *x; x++) printf("%02x", (unsigned char)*x);
}
/* string owned by the caller */
static void pf(char *x) {
  ps(x);
  annis_str_free(x);
}
static AnnisErrorList *err;
static AnnisErrorList **perr;
static void errors(void) {
  if (perr && err) {
    size_t k = annis_error_size(err);
    printf("E %zu", k);
    for (size_t i = 0; i < k; i++) {
      ps(annis_error_get_kind(err, i));
      ps(annis_error_get_msg(err, i));
    }
    /* behind the end */
    if (annis_error_get_kind(err, k) || annis_error_get_msg(err, k + 7)) printf(" OUTSIDE");
    printf("\n");
    annis_free(err);
  } else
    printf("E 0\n");
  err = NULL;
}
static void annotations(struct AnnisVec_Annotation *a, const char *what) {
  if (!a) { printf("%s null\n", what); return; }
  size_t k = annis_vec_annotation_size(a);
  for (size_t i = 0; i < k; i++) {
    const struct AnnisAnnotation *x = annis_vec_annotation_get(a, i);
    printf("%s", what);
    pf(annis_annotation_ns(x));
    pf(annis_annotation_name(x));
    pf(annis_annotation_val(x));
    printf("\n");
  }
  if (annis_vec_annotation_get(a, k) || annis_vec_annotation_get(a, (size_t)-1)) printf("OUTSIDE\n");
  annis_free(a);
}
static void component(const AnnisAnnotationComponent *c) {
  printf(" %d", (int)annis_component_type(c));
  pf(annis_component_layer(c));
  pf(annis_component_name(c));
}
static void vdump(struct AnnisVec_CString *v) {
  if (!v) { printf("null\n"); return; }
  size_t k = annis_vec_str_size(v);
  printf("%zu", k);
  for (size_t i = 0; i < k; i++) ps(annis_vec_str_get(v, i));
  if (annis_vec_str_get(v, k) || annis_vec_str_get(v, k + 1000)) printf(" OUTSIDE");
  printf("\n");
}
static void cdump(struct AnnisVec_AnnotationComponent *c, const char *what) {
  if (!c) { printf("%s null\n", what); return; }
  size_t k = annis_vec_component_size(c);
  for (size_t i = 0; i < k; i++) {
    printf("%s", what);
    component(annis_vec_component_get(c, i));
    printf("\n");
  }
  if (annis_vec_component_get(c, k)) printf("OUTSIDE\n");
}
static void gdump(AnnisAnnotationGraph *g, const char *type) {
  if (!g) { printf("null\n"); return; }
  struct AnnisIterPtr_NodeID *it = annis_graph_nodes_by_type(g, type);
  struct AnnisVec_AnnotationComponent *cs = annis_graph_all_components(g);
  AnnisNodeID *id;
  while ((id = annis_iter_nodeid_next(it, perr))) {
    printf("n %llu\n", (unsigned long long)*id);
    annotations(annis_graph_annotations_for_node(g, *id, perr), "a");
    for (size_t i = 0; i < annis_vec_component_size(cs); i++) {
      const AnnisAnnotationComponent *c = annis_vec_component_get(cs, i);
      struct AnnisVec_Edge *es = annis_graph_outgoing_edges(g, *id, c, perr);
      size_t k = annis_vec_edge_size(es);
      for (size_t j = 0; j < k; j++) {
        const struct AnnisEdge *e = annis_vec_edge_get(es, j);
        printf("e %llu %llu", (unsigned long long)e->source, (unsigned long long)e->target);
        component(c);
        printf("\n");
        annotations(annis_graph_annotations_for_edge(g, *e, c, perr), "b");
      }
      if (annis_vec_edge_get(es, k)) printf("OUTSIDE\n");
      annis_free(es);
    }
    annis_free(id);
  }
  /* the end of the iterator is stable */
  if (annis_iter_nodeid_next(it, perr)) printf("OUTSIDE\n");
  annis_free(it);
  annis_free(cs);
  static const enum AnnisAnnotationComponentType T[] = {
      AnnisAnnotationComponentType_Coverage, AnnisAnnotationComponentType_Dominance, AnnisAnnotationComponentType_Pointing,
      AnnisAnnotationComponentType_Ordering, AnnisAnnotationComponentType_LeftToken, AnnisAnnotationComponentType_RightToken,
      AnnisAnnotationComponentType_PartOf};
  for (size_t i = 0; i < sizeof T / sizeof *T; i++) {
    cs = annis_graph_all_components_by_type(g, T[i]);
    char w[20];
    snprintf(w, sizeof w, "c %d", (int)T[i]);
    cdump(cs, w);
    annis_free(cs);
  }
}
static enum AnnisQueryLanguage lang(int i) { return n(i) ? AnnisQueryLanguage_AQLQuirksV3 : AnnisQueryLanguage_AQL; }
static enum AnnisResultOrder order(int i) {
  static const enum AnnisResultOrder O[] = {AnnisResultOrder_Normal, AnnisResultOrder_Inverted, AnnisResultOrder_Randomized, AnnisResultOrder_NotSorted};
  return O[n(i) % 4];
}
static enum AnnisAnnotationComponentType ctype(int i) {
  static const enum AnnisAnnotationComponentType T[] = {
      AnnisAnnotationComponentType_Coverage, AnnisAnnotationComponentType_Dominance, AnnisAnnotationComponentType_Pointing,
      AnnisAnnotationComponentType_Ordering, AnnisAnnotationComponentType_LeftToken, AnnisAnnotationComponentType_RightToken,
      AnnisAnnotationComponentType_PartOf};
  return T[n(i) % 7];
}
static enum AnnisExportFormat eformat(int i) {
  static const enum AnnisExportFormat T[] = {AnnisExportFormat_GraphML, AnnisExportFormat_GraphMLZip, AnnisExportFormat_GraphMLDirectory};
  return T[n(i) % 3];
}
#define IS(x) (!strcmp(tok[0], x))
#define P(a, i) (a[n(i) % N])

int main(void) {
  static char line[1 << 20];
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  for (long nr = 0; fgets(line, sizeof line, stdin); nr++) {
    ntok = 0;
    for (char *p = strtok(line, " \n"); p && ntok < 32; p = strtok(NULL, " \n")) tok[ntok++] = p;
    if (!ntok) continue;
    memset(str, 0, sizeof str);
    printf("> %ld\n", nr);
    fprintf(stderr, "at %ld %s\n", nr, tok[0]);
    /* the last argument of many commands tells if errors are wanted */
    perr = !strcmp(tok[ntok - 1], "noerr") ? NULL : &err;
    if (IS("open"))
      P(S, 1) = annis_cs_with_max_cache_size(s(2), n(3), n(4), perr), printf("%d\n", P(S, 1) != NULL);
    else if (IS("openauto"))
      P(S, 1) = annis_cs_with_auto_cache_size(s(2), n(3), perr), printf("%d\n", P(S, 1) != NULL);
    else if (IS("close"))
      annis_cs_free(P(S, 1)), P(S, 1) = NULL;
    else if (IS("log"))
      annis_init_logging(s(1), AnnisLogLevel_Debug, perr);
    else if (IS("unew"))
      P(U, 1) = annis_graphupdate_new();
    else if (IS("ufree"))
      annis_free(P(U, 1)), P(U, 1) = NULL;
    else if (IS("an"))
      annis_graphupdate_add_node(P(U, 1), s(2), s(3), perr);
    else if (IS("dn"))
      annis_graphupdate_delete_node(P(U, 1), s(2), perr);
    else if (IS("al"))
      annis_graphupdate_add_node_label(P(U, 1), s(2), s(3), s(4), s(5), perr);
    else if (IS("dl"))
      annis_graphupdate_delete_node_label(P(U, 1), s(2), s(3), s(4), perr);
    else if (IS("ae"))
      annis_graphupdate_add_edge(P(U, 1), s(2), s(3), s(4), s(5), s(6), perr);
    else if (IS("de"))
      annis_graphupdate_delete_edge(P(U, 1), s(2), s(3), s(4), s(5), s(6), perr);
    else if (IS("ael"))
      annis_graphupdate_add_edge_label(P(U, 1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9), perr);
    else if (IS("del"))
      annis_graphupdate_delete_edge_label(P(U, 1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), perr);
    else if (IS("apply"))
      annis_cs_apply_update(P(S, 1), s(3), P(U, 2), perr);
    else if (IS("vnew"))
      P(V, 1) = annis_vec_str_new();
    else if (IS("vpush"))
      annis_vec_str_push(P(V, 1), s(2));
    else if (IS("vfree"))
      annis_free(P(V, 1)), P(V, 1) = NULL;
    else if (IS("vdump"))
      vdump(P(V, 1));
    else if (IS("count"))
      printf("%llu\n", (unsigned long long)annis_cs_count(P(S, 1), P(V, 2), s(3), lang(4), perr));
    else if (IS("extra")) {
      struct AnnisCountExtra e = annis_cs_count_extra(P(S, 1), P(V, 2), s(3), lang(4), perr);
      printf("%llu %llu\n", (unsigned long long)e.match_count, (unsigned long long)e.document_count);
    } else if (IS("find")) {
      /* S V query lang offset limit order target */
      size_t *limit = NULL;
      if (strcmp(tok[6], "-")) limit = malloc(sizeof *limit), *limit = n(6);
      P(V, 8) = annis_cs_find(P(S, 1), P(V, 2), s(3), lang(4), n(5), limit, order(7), perr);
      free(limit);
      vdump(P(V, 8));
    } else if (IS("subgraph"))
      P(G, 1) = annis_cs_subgraph(P(S, 2), s(3), P(V, 4), n(5), n(6), s(7), perr), printf("%d\n", P(G, 1) != NULL);
    else if (IS("subcorpus"))
      P(G, 1) = annis_cs_subcorpus_graph(P(S, 2), s(3), P(V, 4), perr), printf("%d\n", P(G, 1) != NULL);
    else if (IS("corpusgraph"))
      P(G, 1) = annis_cs_corpus_graph(P(S, 2), s(3), perr), printf("%d\n", P(G, 1) != NULL);
    else if (IS("querygraph"))
      P(G, 1) = annis_cs_subgraph_for_query(P(S, 2), s(3), s(4), lang(5), perr), printf("%d\n", P(G, 1) != NULL);
    else if (IS("querygraphtype"))
      P(G, 1) = annis_cs_subgraph_for_query_with_ctype(P(S, 2), s(3), s(4), lang(5), ctype(6), perr), printf("%d\n", P(G, 1) != NULL);
    else if (IS("gdump"))
      gdump(P(G, 1), s(2));
    else if (IS("gfree"))
      annis_free(P(G, 1)), P(G, 1) = NULL;
    else if (IS("freq")) {
      P(F, 1) = annis_cs_frequency(P(S, 2), P(V, 3), s(4), lang(5), s(6), perr);
      printf("%d\n", P(F, 1) != NULL);
    } else if (IS("fdump")) {
      AnnisFrequencyTable_CString *f = P(F, 1);
      size_t r = annis_freqtable_str_nrows(f), c = annis_freqtable_str_ncols(f);
      printf("%zu %zu\n", r, c);
      for (size_t i = 0; i < r; i++) {
        printf("r %zu", annis_freqtable_str_count(f, i));
        for (size_t j = 0; j < c; j++) ps(annis_freqtable_str_get(f, i, j));
        printf("\n");
      }
      if (annis_freqtable_str_get(f, r, 0) || annis_freqtable_str_get(f, 0, c) || annis_freqtable_str_count(f, r)) printf("OUTSIDE\n");
    } else if (IS("ffree"))
      annis_free(P(F, 1)), P(F, 1) = NULL;
    else if (IS("list"))
      P(V, 2) = annis_cs_list(P(S, 1), perr), vdump(P(V, 2));
    else if (IS("nodeannos"))
      P(M, 1) = annis_cs_list_node_annotations(P(S, 2), s(3), n(4), n(5), perr), printf("%d\n", P(M, 1) != NULL);
    else if (IS("edgeannos")) /* M S corpus type name layer values frequent */
      P(M, 1) = annis_cs_list_edge_annotations(P(S, 2), s(3), ctype(4), s(5), s(6), n(7), n(8), perr), printf("%d\n", P(M, 1) != NULL);
    else if (IS("mdump")) {
      AnnisMatrix_CString *m = P(M, 1);
      size_t r = annis_matrix_str_nrows(m), c = annis_matrix_str_ncols(m);
      printf("%zu %zu\n", r, c);
      for (size_t i = 0; i < r; i++) {
        printf("r");
        for (size_t j = 0; j < c; j++) ps(annis_matrix_str_get(m, i, j));
        printf("\n");
      }
      if (annis_matrix_str_get(m, r, 0) || annis_matrix_str_get(m, 0, c)) printf("OUTSIDE\n");
    } else if (IS("mfree"))
      annis_free(P(M, 1)), P(M, 1) = NULL;
    else if (IS("validate"))
      printf("%d\n", annis_cs_validate_query(P(S, 1), P(V, 2), s(3), lang(4), perr));
    else if (IS("descr"))
      P(Q, 1) = annis_cs_node_descriptions(P(S, 2), s(3), lang(4), perr), printf("%d\n", P(Q, 1) != NULL);
    else if (IS("qdump")) {
      struct AnnisVec_QueryAttributeDescription *q = P(Q, 1);
      size_t k = annis_vec_qattdesc_size(q);
      for (size_t i = 0; i < k; i++) {
        printf("q %zu", (size_t)annis_vec_qattdesc_get_component_nr(q, i));
        pf(annis_vec_qattdesc_get_aql_fragment(q, i));
        pf(annis_vec_qattdesc_get_variable(q, i));
        pf(annis_vec_qattdesc_get_anno_name(q, i));
        printf("\n");
      }
      if (annis_vec_qattdesc_get_component_nr(q, k) || annis_vec_qattdesc_get_aql_fragment(q, k) || annis_vec_qattdesc_get_variable(q, k + 1) ||
          annis_vec_qattdesc_get_anno_name(q, (size_t)-1))
        printf("OUTSIDE\n");
    } else if (IS("qfree"))
      annis_free(P(Q, 1)), P(Q, 1) = NULL;
    else if (IS("import")) /* S path format name disk overwrite */
      pf(annis_cs_import_from_fs(P(S, 1), s(2), n(3) ? AnnisImportFormat_GraphML : AnnisImportFormat_RelANNIS, s(4), n(5), n(6), perr)), printf("\n");
    else if (IS("export"))
      annis_cs_export_to_fs(P(S, 1), P(V, 2), s(3), eformat(4), perr);
    else if (IS("components"))
      P(C, 1) = annis_cs_list_components_by_type(P(S, 2), s(3), ctype(4), perr), printf("%d\n", P(C, 1) != NULL);
    else if (IS("cdump"))
      cdump(P(C, 1), "c");
    else if (IS("cfree"))
      annis_free(P(C, 1)), P(C, 1) = NULL;
    else if (IS("delete"))
      printf("%d\n", annis_cs_delete(P(S, 1), s(2), perr));
    else if (IS("unload"))
      annis_cs_unload(P(S, 1), s(2), perr);
    else if (IS("nulls")) {
      /* documented to be accepted or without effect */
      annis_free(NULL);
      annis_str_free(NULL);
      annis_cs_free(NULL);
    } else {
      fprintf(stderr, "driver: unknown command %s\n", tok[0]);
      return 9;
    }
    errors();
    for (int i = 0; i < ntok; i++) free(str[i]);
  }
  printf("end\n");
  return 0;
}
