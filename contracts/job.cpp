// Contracts of traffic_simulator::job::{Job, JobList}
#include <verif.hpp>

#include <functional>
#include <memory>
#include <string>
#include <vector>

#ifndef VERIF_PUBLIC_ONLY
#define private public  // contracts speak about the representation
#endif
#include <traffic_simulator/job/job.hpp>
#include <traffic_simulator/job/job_list.hpp>
#undef private
#include <simulation/traffic_simulator/src/job/job.cpp>
#include <simulation/traffic_simulator/src/job/job_list.cpp>

using namespace traffic_simulator::job;

struct Log { int updates, cleanups; };

namespace
{
Type any_type(const char * name) { return static_cast<Type>(verif::any_in(name, 0, 5)); }
Event any_event(const char * name) { return static_cast<Event>(verif::any_in(name, 0, 1)); }
}  // namespace

#ifndef VERIF_PUBLIC_ONLY
// a new job is active, has the properties asked for, and has called nothing
VERIF_HARNESS(job_starts, "")
{
  int updates = 0, cleanups = 0;
  const auto type = any_type("type");
  const auto exclusive = verif::any<bool>("exclusive");
  const auto event = any_event("event");
  Job job([&](double) { ++updates; return true; }, [&]() { ++cleanups; }, type, exclusive, event);
  verif::check(job.getStatus() == Status::ACTIVE, "starts active");
  verif::check(job.type == type and job.exclusive == exclusive and job.event == event, "has the properties asked for");
  verif::check(job.job_duration_ == 0, "starts at time zero");
  verif::check(updates == 0 and cleanups == 0, "calls nothing until it is updated");
}

// one update of a job in any state: with job_starts, this is the induction step of every history
VERIF_HARNESS(job_step, "")
{
  int updates = 0, cleanups = 0, order = 0;
  double given = -1;
  const auto finishes = verif::any<bool>("finishes");
  const auto duration = verif::any<double>("duration"), step = verif::any<double>("step");
  const auto active = verif::any<bool>("active");
  const auto type = any_type("type");
  const auto event = any_event("event");
  Job job(
    [&](double t) { ++updates; given = t; if (cleanups) ++order; return finishes; }, [&]() { ++cleanups; }, type, true, event);
  job.status_ = active ? Status::ACTIVE : Status::INACTIVE;
  job.job_duration_ = duration;
  job.onUpdate(step);
  verif::check(updates == (active ? 1 : 0), "the update function runs once per step while the job is active, never after");
  verif::check(not active or given == duration or (given != given and duration != duration), "the update function is given the time since the job started");
  verif::check(cleanups == (active and finishes ? 1 : 0), "the cleanup function runs once, when the job finishes");
  verif::check(order == 0, "cleanup follows the update");
  verif::check(job.getStatus() == (active and not finishes ? Status::ACTIVE : Status::INACTIVE), "a job stays active until its update function reports completion, and never restarts");
  const auto next = active ? duration + step : duration;
  verif::check(finishes or not active or job.job_duration_ == next or next != next, "time advances by the step");
  verif::check(job.type == type and job.event == event, "the properties do not change");
}

#else
VERIF_HARNESS(job_history, "native")
{
  int updates = 0, cleanups = 0;
  double given = -1;
  const auto finishes_at = verif::any_in("finishes at", 0, 5);
  const auto event = any_event("event");
  const auto type = any_type("type");
  Job job([&](double t) { ++updates; given = t; return updates > finishes_at; }, [&]() { ++cleanups; }, type, true, event);
  double now = 0;
  for (int i = 0; i < 7; ++i) {
    verif::check((job.getStatus() == Status::ACTIVE) == (i <= finishes_at), "a job is active until its update function reports completion");
    verif::check(cleanups == (i > finishes_at ? 1 : 0) and updates == (i > finishes_at ? finishes_at + 1 : i), "updates until it finishes, then cleans up once");
    const auto step = verif::any_in("step", 0, 100);
    job.onUpdate(step);
    verif::check(i > finishes_at or given == now, "the update function is given the time since the job started");
    now += step;
  }
}
#endif

VERIF_HARNESS(job_inactivate, "")
{
  int updates = 0, cleanups = 0;
  Job job([&](double) { ++updates; return true; }, [&]() { ++cleanups; }, any_type("type"), true, any_event("event"));
  job.inactivate();
  verif::check(job.getStatus() == Status::INACTIVE and cleanups == 1 and updates == 0, "inactivating cleans up once and runs no update");
  job.onUpdate(verif::any<double>("step"));
  verif::check(cleanups == 1 and updates == 0, "an inactivated job does nothing any more");
}

#ifndef VERIF_PUBLIC_ONLY
// appending to, and updating, any list of jobs
VERIF_HARNESS(job_list_append, "maxlen=3")
{
  JobList list;
  std::vector<Log> log(8);
  std::vector<bool> active;
  std::vector<Type> types;
  auto jobs = verif::any_vector<Job>("jobs", [&](std::size_t i) {
    Job job([&log, i](double) { ++log[i].updates; return false; }, [&log, i]() { ++log[i].cleanups; }, any_type("type"), true, any_event("event"));
    job.status_ = verif::any<bool>("active") ? Status::ACTIVE : Status::INACTIVE;
    return job;
  });
  for (auto & job : jobs) {
    active.push_back(job.getStatus() == Status::ACTIVE);
    types.push_back(job.type);
    list.list_.push_back(job);
  }
  const auto n = jobs.size();
  int updates = 0, cleanups = 0;
  const auto type = any_type("new type");
  const auto event = any_event("new event");
  list.append([&](double) { ++updates; return true; }, [&]() { ++cleanups; }, type, true, event);
  verif::check(list.list_.size() == n + 1, "one job is added");
  for (std::size_t i = 0; i < n; ++i) {
    const auto replaced = active[i] and types[i] == type;
    verif::check(log[i].cleanups == (replaced ? 1 : 0), "an active exclusive job of the same type is cleaned up once, every other job is left alone");
    verif::check((list.list_[i].getStatus() == Status::ACTIVE) == (active[i] and not replaced), "an exclusive job replaces the active one of its type");
    verif::check(log[i].updates == 0, "appending updates nothing");
  }
  verif::check(updates == 0 and cleanups == 0, "the new job has not run yet");
  verif::check(list.list_.back().getStatus() == Status::ACTIVE and list.list_.back().type == type and list.list_.back().event == event, "the new job is active, with its properties");
}

VERIF_HARNESS(job_list_update, "maxlen=3")
{
  JobList list;
  std::vector<Log> log(8);
  std::vector<bool> active, finishes;
  std::vector<int> order;
  std::vector<Event> events;
  auto jobs = verif::any_vector<Job>("jobs", [&](std::size_t i) {
    const auto done = verif::any<bool>("finishes");
    finishes.push_back(done);
    Job job([&log, &order, i, done](double) { ++log[i].updates; order.push_back(i); return done; }, [&log, i]() { ++log[i].cleanups; }, any_type("type"), verif::any<bool>("exclusive"), any_event("event"));
    job.status_ = verif::any<bool>("active") ? Status::ACTIVE : Status::INACTIVE;
    return job;
  });
  for (auto & job : jobs) {
    active.push_back(job.getStatus() == Status::ACTIVE);
    events.push_back(job.event);
    list.list_.push_back(job);
  }
  const auto n = jobs.size();
  const auto event = any_event("event");
  list.update(verif::any<double>("step"), event);
  for (std::size_t i = 0; i < n; ++i) {
    const auto runs = active[i] and events[i] == event;
    verif::check(log[i].updates == (runs ? 1 : 0), "exactly the active jobs of the event are updated, once each");
    verif::check(log[i].cleanups == (runs and finishes[i] ? 1 : 0), "exactly those that finish are cleaned up");
    verif::check((list.list_[i].getStatus() == Status::ACTIVE) == (active[i] and not(runs and finishes[i])), "a finished job is inactive");
  }
  for (std::size_t i = 1; i < order.size(); ++i)
    verif::check(order[i - 1] < order[i], "jobs are updated in the order they were appended");
}
#else
VERIF_HARNESS(job_list_public, "native")
{
  JobList list;
  struct Entry { Type type; Event event; bool finishes, active; int updates, cleanups; };
  static std::vector<Entry> model;
  static std::vector<int> order;
  model.assign(16, {});
  std::size_t n = 0;
  for (int i = 0; i < 10; ++i) {
    if (n < 2 or verif::any<bool>("append")) {
      const auto type = any_type("type");
      for (std::size_t k = 0; k < n; ++k)
        if (model[k].active and model[k].type == type) model[k].active = false, model[k].cleanups = 100;  // append must add the one clean-up
      model[n] = Entry{type, any_event("event"), verif::any<bool>("finishes"), true, 0, 0};
      static int cleaned[16];
      cleaned[n] = 0;
      list.append([n](double) { ++model[n].updates; order.push_back(n); return model[n].finishes; }, [n]() { ++model[n].cleanups; }, type, true, model[n].event);
      ++n;
      for (std::size_t k = 0; k < n; ++k) {
        verif::check(model[k].cleanups == 0 or model[k].cleanups == 1 or model[k].cleanups == 101, "cleaned up at most once");
        if (model[k].cleanups == 101) model[k].cleanups = 1;
      }
    } else {
      const auto event = any_event("updated event");
      order.clear();
      auto before = model;
      list.update(0.5, event);
      for (std::size_t k = 0; k < n; ++k) {
        const auto runs = before[k].active and before[k].event == event;
        verif::check(model[k].updates == before[k].updates + (runs ? 1 : 0), "exactly the active jobs of the event are updated, once each");
        verif::check(model[k].cleanups == before[k].cleanups + (runs and before[k].finishes ? 1 : 0), "exactly those that finish are cleaned up");
        if (runs and before[k].finishes) model[k].active = false;
      }
      for (std::size_t k = 1; k < order.size(); ++k) verif::check(order[k - 1] < order[k], "in the order appended");
    }
  }
}
#endif
