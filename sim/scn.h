// Scenario registry and helpers shared by the scenarios.
#pragma once
#include "core.h"
struct Scenario {
  string id; u64 quickRuns=400, thoroughRuns=20000; 
  std::function<void(Rng&,Case&,bool thorough,u64 index)> gen;     // build the case of one seed
  std::function<void(const Case&,Outcome&)> run;                   // execute it
  std::function<vector<Case>(const Case&)> shrink;                 // optional: simpler variants of a case
  string rule; vector<string> real, stubbed, assumptions;
};
map<string,Scenario>& scenarios();
struct Reg { Reg(const Scenario&s){ scenarios()[s.id]=s; } };
// Runs a simulation body, turning harness errors into Outcome::error and filling the statistics.
void simRun(const Case&c,Outcome&out,std::function<void(Sim&)> body);
string b64ish(const string&);
bool isPrefix(const string&p,const string&s);
string j(const vector<string>&v,const string&sep=" ");
// a fault mix: chooses a subset of kinds with a rate each (swarm style) and stores it in the case
void genFaults(Rng&r,Case&c,const vector<string>&kinds,double maxRate,double pNone);
void applyFaults(const Case&c,Sim&s);
