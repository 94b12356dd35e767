// Simulator of the python client: the real package colibri (and its native module, bindings.cpp) in an embedded interpreter.
// This file gives the driver (driver.py) access to the decisions of the simulation and to the simulated chain.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#undef bytes
#include "../net/net.h"
#include "colibri.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

const char* sim_name = "pyc";
PyObject*   PyInit__native(void);

int n_choose_cfg(void);
static wreq REQ[64];
static int  nreq;
static PyObject* f_choose(PyObject* s, PyObject* a) {
  unsigned    n;
  const char* l;
  if (!PyArg_ParseTuple(a, "Is", &n, &l)) return NULL;
  return PyLong_FromUnsignedLong(n > 1 ? sim_choose(n, l) : 0);
}
static PyObject* f_chance(PyObject* s, PyObject* a) {
  unsigned    n;
  const char* l;
  if (!PyArg_ParseTuple(a, "Is", &n, &l)) return NULL;
  return PyBool_FromLong(sim_chance(n, l));
}
static PyObject* f_fault(PyObject* s, PyObject* a) {
  unsigned    n;
  const char* l;
  if (!PyArg_ParseTuple(a, "sI", &l, &n)) return NULL;
  return PyBool_FromLong(sim_fault(l, n));
}
static PyObject* f_count(PyObject* s, PyObject* a) {
  const char* l;
  if (!PyArg_ParseTuple(a, "s", &l)) return NULL;
  sim_fault_count(l);
  Py_RETURN_NONE;
}
static PyObject* f_stat(PyObject* s, PyObject* a) {
  const char* l;
  if (!PyArg_ParseTuple(a, "s", &l)) return NULL;
  sim_stat(l, 1);
  Py_RETURN_NONE;
}
static PyObject* f_log(PyObject* s, PyObject* a) {
  const char* l;
  if (!PyArg_ParseTuple(a, "s", &l)) return NULL;
  sim_log("%s", l);
  Py_RETURN_NONE;
}
static PyObject* f_violation(PyObject* s, PyObject* a) {
  const char *k, *t;
  if (!PyArg_ParseTuple(a, "ss", &k, &t)) return NULL;
  sim_violation(k, "%s", t);
}
static PyObject* f_error(PyObject* s, PyObject* a) {
  const char* t;
  if (!PyArg_ParseTuple(a, "s", &t)) return NULL;
  sim_error("%s", t);
}
static PyObject* f_state(PyObject* s, PyObject* a) {
  const char* t;
  if (!PyArg_ParseTuple(a, "s", &t)) return NULL;
  sim_state(sim_hash(7, t, strlen(t)));
  Py_RETURN_NONE;
}
static PyObject* f_checked(PyObject* s, PyObject* a) {
  sim_checked(1);
  Py_RETURN_NONE;
}
static PyObject* f_advance(PyObject* s, PyObject* a) {
  unsigned long long n;
  if (!PyArg_ParseTuple(a, "K", &n)) return NULL;
  sim_advance(n);
  Py_RETURN_NONE;
}
static PyObject* f_seed(PyObject* s, PyObject* a) { return PyLong_FromUnsignedLongLong(sim_seed()); }
static PyObject* f_world(PyObject* s, PyObject* a) { // chooses the chain and its head
  W          = world_get(n_choose_cfg());
  W->head    = W->head_min + sim_choose(W->head_max - W->head_min - 4, "head");
  sim_now_ms = (W->genesis_time + W->b[W->head].slot * W->slot_secs + 3) * 1000;
  return PyLong_FromUnsignedLongLong(W->chain_id);
}
static PyObject* f_checkpoint(PyObject* s, PyObject* a) {
  unsigned behind;
  if (!PyArg_ParseTuple(a, "I", &behind)) return NULL;
  char cp[67];
  if (!behind) set_checkpoint(cp, W->b[W->head].final_root);
  else {
    uint32_t hp = w_period(W, W->b[W->head].slot), far = hp - W->first_period, wsp = W->wsp_epochs / (8192 >> W->epoch_bits);
    if (far > wsp) far = wsp;
    if (behind > far) behind = far;
    set_checkpoint(cp, W->b[w_find_slot(W, (uint64_t) (hp - behind) * 8192 + 4 * (1 << W->epoch_bits))].root);
  }
  return PyUnicode_FromString(cp);
}
static PyObject* f_node(PyObject* s, PyObject* a) {
  int         type, ssz;
  const char *url, *pl;
  Py_ssize_t  n;
  if (!PyArg_ParseTuple(a, "Csy#p", &type, &url, &pl, &n, &ssz)) return NULL;
  wresp r;
  w_node(W, (char) type, url, n ? (const uint8_t*) pl : NULL, n, ssz, &r);
  PyObject* o = Py_BuildValue("iy#", r.status, r.body.d ? (char*) r.body.d : "", (Py_ssize_t) r.body.n);
  free(r.body.d);
  return o;
}
static PyObject* f_prove(PyObject* s, PyObject* a) {
  const char *m, *p;
  if (!PyArg_ParseTuple(a, "ss", &m, &p)) return NULL;
  wreq r = {0};
  if (strlen(m) >= sizeof(r.method) || strlen(p) >= sizeof(r.args)) Py_RETURN_NONE;
  strcpy(r.method, m);
  strcpy(r.args, p);
  pcfg pc = {.answer = honest_answer, .max_rounds = 80};
  wout o  = {0};
  run_prover(&r, &pc, &o);
  PyObject* res = o.ok ? PyBytes_FromStringAndSize((char*) o.proof.d, o.proof.n) : PyUnicode_FromString(o.error ? o.error : "?");
  return res;
}
// (index, method, args, provable)
static PyObject* f_request(PyObject* s, PyObject* a) {
  int kinds;
  if (!PyArg_ParseTuple(a, "i", &kinds)) return NULL;
  if (nreq == 64) nreq = 0;
  wreq* r = REQ + nreq++;
  gen_request(r, kinds, W->head - 20, W->head - 1);
  bool must = has_answer(r) && req_provable(r, w_period(W, W->b[W->head].slot)) && !(r->kind == K_LOGS && empty_logs(r));
  return Py_BuildValue("issO", nreq - 1, r->method, r->args, must ? Py_True : Py_False);
}
static PyObject* f_check(PyObject* s, PyObject* a) {
  int         i;
  const char* t;
  Py_ssize_t  n;
  if (!PyArg_ParseTuple(a, "is#", &i, &t, &n)) return NULL;
  sim_checked(1);
  const char* e = check_answer(REQ + i, t, n);
  if (!e) Py_RETURN_NONE;
  return PyUnicode_FromString(e);
}
static PyObject* f_sound(PyObject* s, PyObject* a) {
  int         i;
  const char* t;
  Py_ssize_t  n;
  if (!PyArg_ParseTuple(a, "is#", &i, &t, &n)) return NULL;
  sim_checked(1);
  const char* e = sound_answer(REQ + i, t, n);
  if (!e) Py_RETURN_NONE;
  return PyUnicode_FromString(e);
}
static PyObject* f_restart(PyObject* s, PyObject* a) {
  process_restart();
  Py_RETURN_NONE;
}
static PyMethodDef M[] = {{"choose", f_choose, METH_VARARGS}, {"chance", f_chance, METH_VARARGS}, {"fault", f_fault, METH_VARARGS}, {"count", f_count, METH_VARARGS}, {"stat", f_stat, METH_VARARGS}, {"log", f_log, METH_VARARGS}, {"violation", f_violation, METH_VARARGS}, {"error", f_error, METH_VARARGS}, {"state", f_state, METH_VARARGS}, {"checked", f_checked, METH_VARARGS}, {"advance", f_advance, METH_VARARGS}, {"seed", f_seed, METH_VARARGS}, {"world", f_world, METH_VARARGS}, {"checkpoint", f_checkpoint, METH_VARARGS}, {"node", f_node, METH_VARARGS}, {"prove", f_prove, METH_VARARGS}, {"request", f_request, METH_VARARGS}, {"check", f_check, METH_VARARGS}, {"sound", f_sound, METH_VARARGS}, {"restart", f_restart, METH_VARARGS}, {0}};
static PyModuleDef D   = {PyModuleDef_HEAD_INIT, "_sim", NULL, -1, M};
static PyObject*   init_sim(void) { return PyModule_Create(&D); }
int                n_choose_cfg(void) { return sim_choose(NCFG, "cfg"); }
static PyObject*   drv;
static void        py_fail(const char* what) {
  PyErr_Print();
  fflush(stderr);
  sim_error("python: %s failed", what);
}
void sim_warmup(const sim_cfg_t* cfg) {
  for (int i = 0; i < NCFG; i++) world_get(i);
  PyImport_AppendInittab("_sim", init_sim);
  PyImport_AppendInittab("_c4native", PyInit__native);
  PyConfig c;
  PyConfig_InitIsolatedConfig(&c);
  c.use_hash_seed           = 1;
  c.hash_seed               = 0;
  char pc[300];
  snprintf(pc, sizeof(pc), "%s/pyc-cache", getenv("SIM_TMP") ? getenv("SIM_TMP") : "/tmp");
  PyConfig_SetBytesString(&c, &c.pycache_prefix, pc);
  c.write_bytecode          = 1;
  c.site_import             = 0;
  c.install_signal_handlers = 0;
  PyStatus st               = Py_InitializeFromConfig(&c);
  PyConfig_Clear(&c);
  if (PyStatus_Exception(st)) {
    fprintf(stderr, "python: %s\n", st.err_msg);
    exit(3);
  }
  const char* repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo";
  PyObject*   sp   = PySys_GetObject("path");
  char        p[500];
  snprintf(p, sizeof(p), "%s/bindings/python/src", repo);
  PyList_Append(sp, PyUnicode_FromString(p));
  PyList_Append(sp, PyUnicode_FromString(SIM_DIR));
  PyList_Append(sp, PyUnicode_FromString("/opt/vp/venv/lib/python3.12/site-packages"));
  drv = PyImport_ImportModule("driver");
  if (!drv) {
    PyErr_Print();
    exit(3);
  }
  process_snapshot();
}
void sim_run(const sim_cfg_t* cfg) {
  PyObject* r = PyObject_CallMethod(drv, "run", "s", cfg->prop);
  if (!r) py_fail("run");
}
