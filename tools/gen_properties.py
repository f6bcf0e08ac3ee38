"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "most_queue/sim/"
ALLSIM = [S+f for f in ("qs_sim.py","impatient_queue_sim.py","batch_sim.py","queue_finite_source_sim.py",
          "priority_queue_sim.py","priority_network.py","fj_sim.py","fj_delta_sim.py")]

p("C01","State probabilities are exact time fractions; the clock never runs back",
  "After any number of events, in every simulator that reports state probabilities, the reported probability of j jobs (of a class, where classes exist) is exactly the share of simulated time spent so far with j jobs in the system, and the probabilities sum to one (per class: up to that class's latest event). The simulated clock never moves backwards and every event happens at the moment it was scheduled for.",
  ["schedules","configurations","histories"],
  "every sequence of arrivals, completions, departures by impatience, batches, phase ends, ties and stalls, and every model configuration",
  "Tests compare at most ten probabilities of two models with theory, at 1e-2, after one long run; simulators other than the basic one are never checked, and no test looks at a short or unusual history.",
  ALLSIM, [("time accumulation p[in_sys] += t - t_old on each event","each simulator's arrival()/serving()/drop_task()/phase-end handlers"),("get_p()","each simulator")],
  [("p","time accumulated per number in system","simulator attribute"),("ttek","simulated clock","simulator attribute")], ["get_p()","ttek","in_sys"])
p("C02","Every job is accounted for exactly once",
  "In every simulator, at every moment, each job that has arrived is in exactly one place: refused, waiting, in exactly one channel, finished, or gone out of impatience; so the counts satisfy arrived = refused + gone + in system, and the number in system is the number waiting plus the number in channels (for fork-join: tasks with unfinished business). No channel ever holds two jobs, and no job is lost, duplicated, or comes back after it left.",
  ["schedules","configurations","histories"],
  "all event orders including simultaneous events, preemption storms, overflow bursts, phases, routing loops and purges",
  "Tests look only at mean waiting or sojourn times after 1e5-1e6 jobs: a job lost once in a rare event order is invisible there.",
  ALLSIM, [("free_channels / in_sys / arrived / served / dropped bookkeeping","arrival(), serving(), drop_task()")],
  [("queue / queues","waiting jobs","simulator attribute"),("servers[i].tsk_on_service","job in channel","Server")], ["arrived, served, dropped, in_sys, queue, servers after each run_one_step()"])
p("C03","GI/G/n: first come first served, no idling, service as drawn",
  "Without warm-up or cooling, the basic simulator starts jobs strictly in order of arrival, starts a job at the very moment a channel is available to it (so no channel idles while a job waits), keeps it there for exactly its drawn service time, and spaces arrivals by exactly the drawn intervals. The list and the deque buffer give identical histories.",
  ["schedules","inputs","configurations"],
  "all arrival and service time sequences (bursts, ties, zero and huge durations), any number of channels, any supported distribution kind, both buffer types",
  "Tests check means against theory; mean waiting time is the same under several wrong disciplines (for example last come first served), and the deque buffer is never run.",
  [S+"qs_sim.py",S+"utils/qs_queue.py",S+"utils/servers.py",S+"utils/tasks.py",S+"utils/distribution_utils.py"],
  [("next-event choice","QueueingSystemSimulator.run_one_step"),("send_task_to_channel / send_task_to_queue / send_head_of_queue_to_channel","QueueingSystemSimulator"),("FIFO buffers","QsQueueList, QsQueueDeque")],
  None, ["v, w, served, taked, ttek after each step"])
p("C04","Reported waiting and sojourn moments are the exact sample moments",
  "After any number of events, in every simulator, the reported first three moments of waiting time and of sojourn time (per class where classes exist; network-wide for networks) equal the raw sample moments of the actual waits and sojourns of the jobs counted so far: zero waits count, repeated waits of a preempted job add up, and a job that leaves impatiently counts with the time it waited. Every job counts exactly once.",
  ["histories","schedules","configurations"],
  "every history of every simulator, from the first job on",
  "Tests compare the mean with theory within up to 10 %; for the impatience, batch, finite-source and network simulators waiting moments are never looked at.",
  ALLSIM+[S+"utils/stats_update.py"], [("running-mean update","refresh_moments_stat, refresh_v_stat, refresh_w_stat")],
  [("w, v","moments","simulator attribute")], ["w, v, v_network, w_network"])
p("C05","A finite buffer refuses exactly the jobs that find it full",
  "With a buffer of B places (B = 0 included), an arriving job (each job of a batch; a fork-join task as a whole) is refused exactly when it would have to wait and too little of the buffer is free, never otherwise; so arrivals never push the number waiting above B (an interrupted job returns to the queue whatever its length). A refused job changes nothing but the counts of arrived and refused jobs, under every discipline that accepts a buffer.",
  ["schedules","configurations"],
  "all buffer sizes from zero up, bursts at the boundary, simultaneous arrival and completion, during warm-up and cooling, all priority types",
  "One test uses a buffer (M/M/3/30 at load 0.8, where refusals hardly happen); no test has a small or zero buffer, nor a buffer in any other simulator.",
  [S+"qs_sim.py",S+"impatient_queue_sim.py",S+"batch_sim.py",S+"queue_finite_source_sim.py",S+"priority_queue_sim.py",S+"fj_sim.py"],
  [("buffer checks","send_task_to_queue, arrival()")], [("buffer","places for waiting jobs","constructor")], ["dropped, queue sizes, in_sys"])
p("C06","Warm-up, cooling and cooling delay follow the vacation protocol",
  "With warm-up, cooling and cooling delay configured in any combination: a system that empties first waits out the delay, then cools for exactly the drawn time during which nobody is served; a job arriving in the delay cancels it and is served at once; jobs present when cooling ends start the warm-up (or are served, when none is set); a job arriving in a cold empty system starts a warm-up of exactly the drawn length, after which waiting jobs enter the channels first come first served. The reported phase probabilities are the exact shares of time spent in completed phases, and the system never stays idle forever with jobs waiting.",
  ["schedules","configurations","inputs"],
  "all interleavings of arrivals with the delay, cooling and warm-up intervals, including arrivals at the boundary instants, any number of channels and buffer",
  "Tests print a comparison for a few loads without asserting on the simulator; boundary interleavings are never forced.",
  [S+"qs_sim.py",S+"utils/phase.py"],
  [("phase automaton","arrival, serving, on_end_warming, on_end_cold, on_end_cold_delay"),("QsPhase","utils/phase.py")],
  [("warm_phase, cold_phase, cold_delay_phase","phase state","simulator attribute")], ["get_warmup_prob, get_cold_prob, get_cold_delay_prob, v, w, in_sys"])
p("C07","Busy-period moments are those of the actual all-channels-busy periods",
  "In the basic, batch, impatience and finite-source simulators the reported number and moments of continuous channel-occupancy periods are those of the maximal intervals during which all channels were busy, each measured from the moment the last free channel was taken until the first moment a channel is left free, and each counted exactly once.",
  ["histories","schedules"],
  "every history, any number of channels, with and without queueing, buffers, impatience, batches, warm-up and cooling",
  "No test looks at these moments at all.",
  [S+"qs_sim.py",S+"impatient_queue_sim.py",S+"batch_sim.py",S+"queue_finite_source_sim.py"],
  [("start_ppnz / refresh_ppnz_stat","send_task_to_channel, send_head_of_queue_to_channel, serving")], [("ppnz, ppnz_moments","moments and count","simulator attribute")], ["ppnz, ppnz_moments"])
p("C08","Non-preemptive classes: highest class first, FIFO within a class",
  "In the multi-class simulator without preemption a job in service is never interrupted, no channel idles while any job waits, a freed channel takes the earliest-arrived job of the highest waiting class (of all classes, when no priority is set), and every service takes exactly the time drawn from the distribution of the job's own class (of its class's warm-up, where warm-up is set and the job finds the system empty).",
  ["schedules","configurations","inputs"],
  "all arrival patterns of all classes, ties, numbers of classes and channels, with and without warm-up of the first job after idleness",
  "One test compares the mean sojourn of the first class with an approximation within 0.3; the no-priority type is never run at all.",
  [S+"priority_queue_sim.py"], [("class queues","PriorityQueueSimulator.arrival/serving")], [("queue[k]","waiting jobs of class k","attribute")], ["v[k], w[k], served[k], taked[k], in_sys[k]"])
p("C09","Preemptive classes: strict precedence; resume, resample, repeat",
  "With preemptive priority no job is ever in service while a job of a higher class waits, no channel idles while any job waits, and within a class jobs start in order of arrival, interrupted ones included. An interrupted job, however often it is interrupted, later needs exactly its remaining time (PR), a fresh draw from its own class's service distribution (RS), or its original full service time again (RW).",
  ["schedules","configurations","histories"],
  "all patterns of repeated and nested interruption, classes, channels, ties and buffers",
  "The tests assert on the highest class only, which preemption of the wrong victim or a wrong resumption time cannot affect; RS and RW are never run.",
  [S+"priority_queue_sim.py"], [("preemption","PriorityQueueSimulator.arrival"),("resumption","Server.start_service")], [("time_to_end_service, is_pr","state of an interrupted job","Task")], ["v[k], w[k], served[k], servers after each step"])
p("C10","Network: jobs follow their routes, and totals add up along the route",
  "Every job entering a priority network visits nodes only along transitions its class's routing matrix allows, chosen with the matrix's probabilities, and leaves exactly when the matrix sends it out; at each node it is served with that node's distribution and discipline for its own class, under the priority the node's order assigns to that class. Network sojourn is exit time minus entry time, network waiting is the sum of the waits at all visits, and the numbers per class balance across nodes at every moment.",
  ["schedules","configurations","histories"],
  "all routing matrices (loops, skips, per-class differences), all priority orders, node sizes and priority types",
  "One network with one routing matrix and self-inverse priority orders is compared with an approximation within 10 %, for one class.",
  [S+"priority_network.py",S+"priority_queue_sim.py"], [("routing","PriorityNetwork.play_next_node"),("class renumbering per node","PriorityNetwork.__init__, run_one_step")], [("nodes_prty","priority of a class in a node","constructor")], ["v_network, w_network, served, in_sys, smos"])
p("C11","Impatience: a waiting job leaves at its deadline, never later or in service",
  "A job whose service has not begun by its arrival time plus its drawn patience leaves at exactly that moment, whatever its place in the queue; a job whose service has begun is never lost; the order of the others is unchanged. Jobs that left count as refused and in the sojourn statistics with the time they waited.",
  ["schedules","inputs"],
  "all combinations of patience, service and arrival times, including deadlines tied with or next to a completion, several deadlines at once, zero patience, any channels and buffer",
  "One test compares the mean sojourn of M/M/1 with theory.",
  [S+"impatient_queue_sim.py"], [("deadline scan","ImpatientQueueSim.run_one_step"),("drop_task","ImpatientQueueSim")], [("moment_to_leave","deadline","ImpatientTask")], ["served, dropped, v, w, ttek"])
p("C12","Batch arrivals: whole batches, right sizes, each job handled on its own",
  "At each arrival moment a whole batch arrives at once, its size is i with the i-th given probability, and its jobs are admitted one after another exactly as individual first-come-first-served arrivals at that moment; statistics count jobs, not batches.",
  ["schedules","inputs","configurations"],
  "all batch size distributions, channels, buffers that cut a batch in two, bursts and ties",
  "One one-sided comparison of the mean sojourn of one single-channel model with theory.",
  [S+"batch_sim.py"], [("batch size draw and loop","QueueingSystemBatchSim.arrival")], [("batch_prob","size distribution","constructor")], ["arrived, dropped, v, w, get_p()"])
p("C13","Finite sources: each source has at most one job outstanding, none goes silent",
  "With m sources, at most m jobs are ever in the system; a source issues its next job exactly one drawn interval after its previous job was served or refused, and never while that job is present. No source is ever lost, so as long as the run continues each keeps sending.",
  ["schedules","configurations","histories"],
  "all draws, numbers of sources and channels, buffers including ones that refuse jobs",
  "No test runs this simulator at all.",
  [S+"queue_finite_source_sim.py"], [("sources_left / arrival_times","QueueingFiniteSourceSim.arrival/serving/run_one_step")], [("arrival_times","next request per source","attribute")], ["arrived, served, dropped, in_sys, v, w, get_p()"])
p("C14","Fork-join and split-join: a task departs with its k-th (or last) part",
  "In fork-join each task splits into one part per channel, each channel serves its parts first come first served without idling, and the task departs exactly when its k-th part is done; with purging its remaining parts, waiting or in service, vanish at that moment and the freed channels go on at once with their next waiting parts. In split-join tasks are served one at a time in order of arrival, all parts of a task start together, and it departs when its last part is done.",
  ["schedules","configurations","inputs"],
  "all service time patterns (stragglers, ties), k from 1 to n, with and without purge, buffers",
  "Tests run split-join with k = n only, comparing the mean sojourn within 10 %; fork-join, k < n and purging are never run.",
  [S+"fj_sim.py",S+"utils/tasks.py"], [("part counters","ForkJoinSim.serving"),("per-channel queues","ForkJoinSim.arrival"),("purge","ForkJoinSim.serving")], [("served_subtask_in_task","finished parts per task","attribute")], ["served, v, in_sys, get_p()"])
p("C15","Fork-join with start delays: each part enters on time and starts when allowed",
  "With a start delay, part i of a task enters exactly i delays (constant, or drawn) after the task's arrival. In fork-join it starts at once if any channel is free and otherwise waits first come first served; in split-join only one task is in service at a time, in order of arrival, and each of its parts starts as soon as it has entered and the task's turn has come; a task departs exactly when all its parts are done.",
  ["schedules","configurations","inputs"],
  "all relations between delay, service and arrival times, including delays longer than services and overlapping tasks, constant and random delays",
  "Split-join with short random delays is compared with theory within 10 %; the fork-join variant, constant delays and overlapping tasks are never run.",
  [S+"fj_delta_sim.py"], [("subtask_arr_queue","ForkJoinSimDelta.task_arrival/subtask_arrival"),("serv_task_id","ForkJoinSimDelta.serving")], [("serv_task_id","task being served","attribute")], ["served, v, in_sys, get_p()"])
p("C16","Simulators do not influence one another, whatever the interleaving",
  "Any number of simulator objects may live in one process, be stepped in any interleaving, or run in different threads preempted at any point: given its own parameters and random draws, each produces exactly the history and statistics it would have produced alone.",
  ["schedules"],
  "every interleaving of steps and every thread preemption point of several simulators, of the same or different kinds",
  "Every test runs one simulator at a time in one thread.",
  ALLSIM+[S+"utils/tasks.py",S+"utils/servers.py"], [("per-object state","all simulators"),("class-level id counters","Task.id, SubTask.sub_task_id, ForkJoinTask.task_id, Server.id")], None, ["all statistics of each simulator"])
p("C17","Splitting, observing, copying or restarting a run does not change it",
  "A run may be cut at any event into several runs, inspected at any event through its probabilities, printed report and statistics, and copied or saved and restored in a new process at any event: the continuation is event for event the one the undisturbed run would have had. A run for N jobs stops at the event that finishes the N-th job, a run for N events processes exactly N, and the report can be printed at any moment after the first event.",
  ["crash_points","schedules","histories"],
  "every cut, observation, copy and restart point in every simulator",
  "Tests call run() once per object and print one report at the end.",
  ALLSIM+[S+"utils/phase.py"], [("run / run_one_step","all simulators"),("__str__, get_p","all simulators")], None, ["run(), run_one_step(), str(), get_p(), copy/pickle"])
p("C18","Summed flows are the exact superposition of their parts",
  "The simulated sum of two flows consists of exactly the events of both flows in order of time, so its reported moments are the sample moments of the intervals between consecutive events of the merged stream; summing several flows folds every one of them in exactly once.",
  ["schedules","inputs"],
  "all interleavings of the two event streams, including bursts, ties and one flow being silent for long; all four supported distribution kinds",
  "No collected test runs flow summation.",
  [S+"flow_sum_sim.py"], [("two-stream merge","FlowSumSim.sum_2_*_flows"),("fold","FlowSumSim.sum_flows")], None, ["returned moments, flows_, result_flow"])
p("C19","Random streams have the declared distribution and use only their generator",
  "For every supported distribution notation, the times a simulator draws follow the distribution those parameters declare. A distribution given a generator draws from that generator only: the same generator state yields the same times, whatever else draws random numbers in between, and nobody else's stream is disturbed.",
  ["inputs","schedules"],
  "all parameters, seeds, and interleavings with other consumers of random numbers",
  "Tests use M, H, E, D, Gamma and Pareto with a few parameters and see only queue means; Cox, uniform and normal streams are never sampled, and streams are never checked for independence.",
  ["most_queue/rand_distribution.py",S+"utils/distribution_utils.py"], [("generate / generate_static","each distribution class"),("create_distribution","distribution_utils.py")], None, ["generate()"])
p("C20","Saved experiment results survive crashes and disk errors",
  "Loading saved experiment statistics returns what was last saved successfully. If saving is cut short at any point by a crash, a full disk or an I/O error, the previously saved results are still there unharmed, or the new ones are completely there; a damaged mixture is never left under the file's name. A file that the disk has damaged, or cannot read, makes loading fail; it is never returned as results that nobody saved.",
  ["crash_points","fault_sequences"],
  "every crash point and failing call in a save, with and without a previous file",
  "The tests save and load on a healthy disk only, although they reload such files on their next run.",
  ["most_queue/general_utils/vacations_paper_utils.py"], [("dump_stat / load_stat","vacations_paper_utils.py")], None, ["dump_stat, load_stat, the file"])
p("C21","Calculators agree with the simulated behaviour of the same model",
  "For models whose calculator is exact, or approximate with a known small error, the long-run moments of waiting and sojourn times (the first three, as far as the calculator gives them), mean numbers in system and queue, busy periods and state probabilities of a simulated run with the same parameters converge to the calculator's results, for every stable parameter choice.",
  ["inputs","histories"],
  "all stable parameter choices of the models covered: M/G/1, M/M/n/r, M/D/n, Ek/D/n, GI/M/1, GI/M/n, M/G/n without and with a buffer (Takahashi-Takami), M/M/1 with impatience, batch M/M/1, Engset, M/G/1 and M/M/n with priorities, warm-up and cooling models, split-join and fork-join (whole, (n, k), with delays), priority networks, Jackson networks, sums of two flows",
  "Each test tries one or two parameter points, most with wide tolerances or no assertion.",
  ["most_queue/theory/mg1_calc.py","most_queue/theory/mmnr_calc.py","most_queue/theory/m_d_n_calc.py","most_queue/theory/ek_d_n_calc.py","most_queue/theory/gi_m_1_calc.py","most_queue/theory/gi_m_n_calc.py","most_queue/theory/mgn_tt.py","most_queue/theory/impatience_calc.py","most_queue/theory/batch_mm1.py","most_queue/theory/engset_model.py","most_queue/theory/priority_calc.py"],
  [("calculators","most_queue/theory"),("simulators","most_queue/sim")], None, ["get_w, get_v, get_p of both sides"])
T="most_queue/theory/"
p("C22","The reported load is the utilisation reached",
  "For every stable system without refusals, impatience or repeated service, the reported load factor (returned by the system and printed in its report) is the share of channel time that is busy with serving in the long run, for every combination of supported source and service distributions, one or several classes, and batches.",
  ["inputs","histories"],
  "all pairs of distribution kinds, their parameters, numbers of channels and classes, batch size distributions",
  "The tests never assert on the load; the reports are only printed.",
  [S+"utils/distribution_utils.py",S+"qs_sim.py",S+"batch_sim.py",S+"priority_queue_sim.py"],
  [("calc_qs_load","utils/distribution_utils.py"),("calc_load","QueueingSystemSimulator, QueueingSystemBatchSim, PriorityQueueSimulator")], None, ["calc_load(), str(), servers[i].is_free over time"])
p("C23","Calculated network traffic is the traffic of the simulated network",
  "For every routing matrix from which every class can leave, every set of input intensities and every priority order, the calculated intensity of a class in a node is the long-run rate of its visits to that node in the simulated network, and the calculated load of a node is the long-run share of its channel time that is busy.",
  ["inputs","histories"],
  "all routing matrices (loops, skips, nodes a class passes by), intensities, node sizes, orders of classes, service distributions",
  "One network is computed in the tests; its intensities and loads are only printed.",
  [T+"network_calc.py",S+"priority_network.py"],[("balance_equation, network_prty_calc","network_calc.py"),("play_next_node","PriorityNetwork")], None, ["balance_equation(), network_prty_calc()['loads'], arrived per node, servers over time"])
p("C24","A change of the unit of time changes nothing else",
  "Expressing the same system in another unit of time (seconds instead of hours: every duration multiplied by c, every rate divided by c) changes nothing but the unit of the results: every simulator goes through the same events with the same jobs, only at times c times as large, and reports the same counts and probabilities and correspondingly scaled moments; every calculator and every distribution returns the same probabilities and correspondingly scaled times, rates, moments and fitted parameters.",
  ["inputs","histories"],
  "all histories of every simulator, all parameters of every calculator and law, all units (factors from 2^-20 to 2^20)",
  "Every test uses intensities and times near one, where absolute steps, thresholds and sentinels hidden in the code do no harm.",
  ["most_queue/rand_distribution.py",S+"qs_sim.py",S+"priority_queue_sim.py",T+"priority_calc.py",T+"mmn_with_h2_cold_and_h2_warmup.py",T+"utils/passage_time.py"],
  [("simulators","most_queue/sim"),("calculators","most_queue/theory"),("laws","rand_distribution.py")], None, ["every counter, time, moment and probability a simulator shows; everything calculators and laws return"])
p("C25","Reports, tables and figures show what happened",
  "At every moment after the first event the long and the short printed report of every simulator show the kind of system, the clock, the next arrivals, the moments, probabilities and counters the simulator has, who is in which channel since and until when, how many wait (per class where there are classes) and who will lose patience first, each to the printed digits; the time to the next event, where it is asked for, leads to the next event; a report of the same moment is always the same; tables and figures of results show every result in the row, column and unit its heading says.",
  ["inputs","schedules","histories"],
  "all histories of every simulator, all moments at which a report is taken, all sets of results",
  "The tests print reports and tables once at the end of a run and assert on none of them; they ran for years with the impatience report consisting of its last line only.",
  [S+"qs_sim.py",S+"fj_sim.py",S+"fj_delta_sim.py",S+"queue_finite_source_sim.py",S+"impatient_queue_sim.py",S+"priority_queue_sim.py",S+"utils/servers.py",S+"utils/tasks.py","most_queue/general_utils/tables.py","most_queue/general_utils/vacations_paper_utils.py"],
  [("__str__","every simulator, channel and task"),("calc_next_event_time","PriorityQueueSimulator, QueueingFiniteSourceSim"),("times_print, probs_print, times_print_with_classes","tables.py"),("print_table, make_plot","vacations_paper_utils.py")], None, ["str(sim), sim.__str__(is_short=True), time_to_next_event, standard output, plotted lines"])
p("C26","Confidence intervals hold their confidence",
  "For every confidence level on offer and every number of replications from five up, the interval formed from the mean and the corrected deviation of independent normal results is centred at their mean, scales with their deviation, and contains the true mean in the promised share of all samples, up to the resolution of the quantile table (exact to its printed digits at the sizes in the table).",
  ["inputs","histories"],
  "all levels (0.95, 0.99, 0.999), all sample sizes, all seeds of the replications",
  "Nothing tests it; a single sample cannot show a coverage.",
  ["most_queue/theory/utils/student_stat.py"],
  [("get_ty, get_conf_intervals","student_stat.py")], None, ["get_conf_intervals()"])
p("C27","What the library says about a law is what its streams show",
  "For every law and all parameters it accepts, the moments, the distribution function, the tail and the density (at every time, below and above the range of the law included), the transform and the law of the rest of an interval that the library gives are those of the times its streams draw. A law fitted to a mean and variation, or to moments, that such a law can have draws times with just these; the moments given for sums of independent times, and what remains when a part is taken away, are those of the sums drawn; the probabilities given for the number of arrivals of a Poisson flow during a time are the shares seen during times drawn.",
  ["inputs","histories"],
  "all parameters of all laws, all means and variations (moments) a law can have, all times, all seeds",
  "The tests never call these functions but at one or two points on the way to a mean; a function may be wrong below the range, for high orders or small variation without any mean showing it.",
  ["most_queue/rand_distribution.py","most_queue/general_utils/conv.py",T+"utils/q_poisson_arrival_calc.py",T+"utils/weibull.py"],
  [("calc_theory_moments, get_cdf, get_tail, get_pdf, get_residual_params, get_pls, get_params*","every distribution class"),("get_moments, get_self_conv_moments, get_moments_minus","conv.py"),("get_q_Gamma, get_q_uniform, get_q_Pareto","q_poisson_arrival_calc.py"),("Weibull","weibull.py")], None, ["everything these functions return; generate()"])
# pure functions: stated, not claimed
p("N02","Calculated state probabilities form a distribution and obey Little's law",
  "For every stable parameter choice each calculator's state probabilities are non-negative and sum to one, and its mean number in system equals the effective arrival rate times its mean sojourn time.",
  ["inputs"],"all stable parameters of each calculator","Tests try one or two parameter points per calculator and rarely assert on the sum.",
  [T+"mgn_tt.py",T+"mmn_with_h2_cold_and_h2_warmup.py",T+"mgn_with_h2_delay_cold_warm.py",T+"m_h2_h2warm.py",T+"m_ph_n_prty.py",T+"mmn3_pnz_cox_approx.py",T+"mmn_prty_pnz_approx.py"],[("get_p, get_w, get_v","each calculator")])
p("N03","Level passage times and maxima match their definitions",
  "For all inputs the transition-time moments between levels, the moments of maxima of independent variables equal the values their definitions give.",
  ["inputs"],"all matrices, moments and numbers of terms","Exercised only through other calculators' tests.",
  [T+"utils/passage_time.py",T+"fj_calc.py"],[("passage_time, getMaxMoments","named files")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
